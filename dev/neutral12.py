"""Edits that keep the behaviour: a twelfth set, in the functions the others touch least."""

SO = "solver.py"

# --- filters: construction
N(F, '''            return FilterRandomInt(
                columns_in, self.columns, self.low, self.high, rng=filter_context.random
            )
''', '''            bounds = {"low": self.low, "high": self.high}
            return FilterRandomInt(
                columns_in, self.columns, rng=filter_context.random, **bounds
            )
''')
N(F, '''        super().__init__(columns_in, columns_act)
        self.low = low
        self.high = high
        self.rng = rng or Random()

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        return (self.rng.randint(self.low, self.high) for _ in values)
''', '''        super().__init__(columns_in, columns_act)
        self._bounds = (low, high)
        self._rng = Random() if rng is None else rng

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        low, high = self._bounds
        return [self._rng.randint(low, high) for _ in range(len(values))]
''')
N(F, '''        super().__init__(columns_in, columns_act)
        self.length = length
        self.alphabet = alphabet
        self.rng = rng or Random()

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)
''', '''        super().__init__(columns_in, columns_act)
        rng = rng or Random()
        self._draw = lambda: "".join(rng.choices(alphabet, k=length))

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        for _ in values:
            yield self._draw()
''')
N(F, '''            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)
            if not alphabet:
                raise ValueError("Custom alphabet cannot be empty")
            return FilterRandomString(
''', '''            if self.alphabet == "custom":
                alphabet = self.custom_alphabet
                if not alphabet:
                    raise ValueError("Custom alphabet cannot be empty")
            else:
                alphabet = _ALPHABET_MAP[self.alphabet]
            return FilterRandomString(
''')
N(F, '''        self.values = tuple(values)
        if len(self.values) != len(self.columns_act):
            raise ValueError(
                "Number of columns and values must match for constant filter"
            )
''', '''        constants = list(values)
        if len(constants) == len(self.columns_act):
            self.values = tuple(constants)
        else:
            raise ValueError(
                "Number of columns and values must match for constant filter"
            )
''')
N(F, '''        super().__init__(columns_in, columns_act)
        faker = faker or Faker()
        self.faker: Faker = faker.unique if unique else faker  # type: ignore
''', '''        super().__init__(columns_in, columns_act)
        if faker is None:
            faker = Faker()
        self.faker: Faker = faker
        if unique:
            self.faker = faker.unique  # type: ignore
''')
N(F, '''        try:
            self.column_index = self.columns_in.index(column)
        except ValueError as exc:
            raise ValueError("Multiplex column does not exist") from exc
        self.conditions = tuple(conditions)
        self.condition_filters = tuple(
            condition.apply.construct_filter(columns_in, filter_context=filter_context)  # type: ignore
            for condition in self.conditions
        )
        for condition_filter in self.condition_filters:
            if condition_filter.columns_out != self.columns_out:
                raise ValueError(
                    "Cannot use filters with multiplex that modify columns"
                )
''', '''        if column not in self.columns_in:
            raise ValueError("Multiplex column does not exist")
        self.column_index = self.columns_in.index(column)
        self.conditions = tuple(conditions)
        condition_filters = []
        for condition in self.conditions:
            nested = condition.apply.construct_filter(  # type: ignore
                self.columns_in, filter_context=filter_context
            )
            if nested.columns_out != self.columns_in:
                raise ValueError(
                    "Cannot use filters with multiplex that modify columns"
                )
            condition_filters.append(nested)
        self.condition_filters = tuple(condition_filters)
''')
N(F, '''        values_in = tuple(values)
        value = values_in[self.column_index]
        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        values_in = list(values)
        chosen = self._choose(values_in[self.column_index])
        return values_in if chosen is None else chosen.filter_view(values_in)

    def _choose(self, value: Any) -> Optional[FilterView]:
        return next(
            (
                nested
                for condition, nested in zip(self.conditions, self.condition_filters)
                if condition.match(value)
            ),
            None,
        )
''')
N(F, '''        cols_in = tuple(columns_in)
        cols_out = cols_in
        filter_views = []
        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = filter_view.columns_out
            filter_views.append(filter_view)
        return cls(cols_in, cols_out, filter_views)
''', '''        cols_in = tuple(columns_in)
        filter_views: List[FilterView] = []
        for filter_config in filter_configs:
            filter_views.append(
                filter_config.construct_filter(  # type: ignore
                    filter_views[-1].columns_out if filter_views else cols_in,
                    filter_context=filter_context,
                )
            )
        cols_out = filter_views[-1].columns_out if filter_views else cols_in
        return cls(cols_in, cols_out, filter_views)
''')
N(F, '''        result = list(values)
        for filter_view in self.filter_views:
            result = filter_view.filter_view(result)
        return result
''', '''        return functools.reduce(
            lambda row, view: view.filter_view(row), self.filter_views, list(values)
        )
''', F, "from uuid import uuid4\n", "import functools\nfrom uuid import uuid4\n")
N(F, '''    cols_seen: Dict[str, int] = {}
    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")

    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
    for column in columns_act:
        act_index = column_index_map.get(column)
        if act_index is None:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        column_act_indices.append(act_index)
    return tuple(column_act_indices)
''', '''    for index, column in enumerate(columns_act):
        if column in columns_act[:index]:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")

    positions = dict(zip(columns_in, range(len(columns_in))))
    unknown = [column for column in columns_act if column not in positions]
    if unknown:
        raise ValueError(
            f"Filter {filter_name} refers to non-existant column {unknown[0]}"
        )
    return tuple(positions[column] for column in columns_act)
''')

# --- planner
N(P, '''        self.ignore_tables = {parse_table_name(table) for table in config.ignore}
        self.passthrough_tables = {
            parse_table_name(table) for table in config.passthrough
        }
''', '''        self.ignore_tables = set(map(parse_table_name, config.ignore))
        self.passthrough_tables = self._names(config.passthrough)

    @staticmethod
    def _names(tables) -> Set[Tuple[str, str]]:
        result = set()
        for table in tables:
            result.add(parse_table_name(table))
        return result
''')
N(P, '''            src_schema, src_table_name = parse_table_name(ignore_fk.src_table)
            dst_schema, dst_table_name = parse_table_name(ignore_fk.dst_table)
            table = self.meta.tables.get((src_schema, src_table_name))
            if table is None:
                LOGGER.warning(
                    "Found no table %s.%s referenced in ignore_fks",
                    src_schema,
                    src_table_name,
                )
                continue

            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''            src, dst = map(parse_table_name, (ignore_fk.src_table, ignore_fk.dst_table))
            if src in self.meta.tables:
                table = self.meta.tables[src]
                kept = []
                for fk in table.foreign_keys:
                    if fk.dst_schema == dst[0] and fk.dst_table == dst[1]:
                        continue
                    kept.append(fk)
                table.foreign_keys[:] = kept
            else:
                LOGGER.warning("Found no table %s.%s referenced in ignore_fks", *src)
''')
N(P, '''        meta, extra_tables = DatabaseMetadata.from_engine(
            self.engine,
            self.config.select + self.config.passthrough,
            close_forward=self.config.include_dependencies,
        )
        self.meta = meta
        LOGGER.info("done!")

        for schema, table_name in meta.tables:
            if (schema, table_name) not in extra_tables:
                LOGGER.info("Selected table %s.%s", schema, table_name)
        for extra_table in extra_tables:
            LOGGER.info(
                "Selected additional table %s.%s referenced by foreign keys",
                extra_table[0],
                extra_table[1],
            )

        return self._plan_internal()
''', '''        self._scan()
        return self._plan_internal()

    def _scan(self) -> None:
        options = {"close_forward": self.config.include_dependencies}
        patterns = [*self.config.select, *self.config.passthrough]
        self.meta, extra_tables = DatabaseMetadata.from_engine(
            self.engine, patterns, **options
        )
        LOGGER.info("done!")
        for key in self.meta.tables:
            if key not in extra_tables:
                LOGGER.info("Selected table %s.%s", *key)
        for extra_table in extra_tables:
            LOGGER.info(
                "Selected additional table %s.%s referenced by foreign keys",
                *extra_table,
            )
''')

# --- metadata
N(M, '''        self.primary_key = tuple(
            column.name for column in table_obj.primary_key.columns
        )
        self.foreign_keys = [
            ForeignKey.from_schema(fk) for fk in table_obj.foreign_key_constraints
        ]
''', '''        self.primary_key = tuple(col.name for col in table_obj.primary_key)
        self.foreign_keys = list(
            map(ForeignKey.from_schema, table_obj.foreign_key_constraints)
        )
''')
N(M, '''        return [  # type: ignore
            self.tables[parse_table_name(u)] for u in toposort(self.as_graph())
        ]
''', '''        by_name = {str(table): table for table in self.tables.values()}
        ordered = []
        for name in toposort(self.as_graph()):
            ordered.append(by_name[name])
        return ordered
''')
N(M, '''            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''            map_key = _key_pk(table.schema, table.primary_key)
            duplicate = map_key in pk_map
            if duplicate:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
            pk_map[map_key] = None if duplicate else table
''')

# --- command line
N(MA, '''    _add_plan_args(
        subparsers.add_parser("plan", help="create sampling plan from source database")
    )
    _add_sample_args(
        subparsers.add_parser("sample", help="sample a source database from a plan")
    )
    subset_parser = subparsers.add_parser("subset", help="plan and sample a database")
    _add_plan_args(subset_parser, subset_action=True)
    _add_sample_args(subset_parser, subset_action=True)
    return parser.parse_args()
''', '''    for action, description, adders in (
        ("plan", "create sampling plan from source database", (_add_plan_args,)),
        ("sample", "sample a source database from a plan", (_add_sample_args,)),
        (
            "subset",
            "plan and sample a database",
            (_add_plan_args, _add_sample_args),
        ),
    ):
        subparser = subparsers.add_parser(action, help=description)
        for adder in adders:
            adder(subparser, subset_action=action == "subset")
    return parser.parse_args()
''')
N(MA, '''        action="store_const",
        const=True,
        default=False,
        help="Create tables in destination from source if missing",
''', '''        action="store_true",
        help="Create tables in destination from source if missing",
''')
N(MA, '''        config_data: Any = {}
        for config_file in config_files:
            try:
                with _open_config_path(config_file) as fconfig:
                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
            except IOError as exc:
                LOGGER.error(
                    "Could not open subsetter config file %r: %s",
                    config_file,
                    exc,
                    exc_info=args.verbose > 1,
                )
                sys.exit(1)
        config = SubsetterConfig.model_validate(config_data)
''', '''        documents = []
        for config_file in config_files:
            try:
                with _open_config_path(config_file) as fconfig:
                    documents.append(yaml.safe_load(fconfig))
            except IOError as exc:
                LOGGER.error(
                    "Could not open subsetter config file %r: %s",
                    config_file,
                    exc,
                    exc_info=args.verbose > 1,
                )
                sys.exit(1)
        merged: Any = {}
        for document in documents:
            merged = _dict_merge(merged, document)
        config = SubsetterConfig.model_validate(merged)
''')

# --- solver
N(SO, '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v].add(u)
    return RG
''', '''    if union:
        RG = {u: set(edges) for u, edges in G.items()}
    else:
        RG = {u: set() for u in G}
    for u in G:
        for v in G[u]:
            RG[v] |= {u}
    return RG
''')
N(SO, '''    if not G[source]:
        G, RG = RG, G

    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
''', '''    here, there = (G, RG) if G[source] else (RG, G)
    result = [source]
    layer = [source]
    while True:
        layer = toposort_reachable(here, layer, set(result))
        if not layer:
            return result
        result += layer
        here, there = there, here
''')

# --- sampler
N(S, '''    if not _autoincrement_needs_updating(engine) or table.autoincrement_column is None:
        return None
    assert engine.dialect.name == "postgresql"

    with engine.connect() as conn:
        return conn.scalar(
            sa.text(
                "SELECT pg_sequence_last_value("
                "CAST(pg_get_serial_sequence(:tab, :col) AS regclass))"
            ),
            {
                "tab": engine.dialect.identifier_preparer.format_table(table),
                "col": table.autoincrement_column.name,
            },
        )
''', '''    column = table.autoincrement_column
    if column is None or not _autoincrement_needs_updating(engine):
        return None
    query = sa.text(
        "SELECT pg_sequence_last_value("
        "CAST(pg_get_serial_sequence(:tab, :col) AS regclass))"
    )
    preparer = engine.dialect.identifier_preparer
    with engine.connect() as conn:
        return conn.execute(
            query, {"tab": preparer.format_table(table), "col": column.name}
        ).scalar()
''')
N(S, '''    if (
        not _autoincrement_needs_updating(engine)
        or table.autoincrement_column is None
        or value is None
    ):
        return
    assert engine.dialect.name == "postgresql"

    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
        return
''', '''    if value is None or not _autoincrement_needs_updating(engine):
        return
    if table.autoincrement_column is None:
        return

    if (_autoincrement_get(engine, table) or value) > value:
        return
''')
N(S, '''        table_obj = sa.Table(
            temp_name,
            metadata,
            schema=temp_schema,
            prefixes=["TEMPORARY"],
            *(
                sa.Column(col.name, col.type, primary_key=col.name in primary_key)
                for col in select.selected_columns
            ),
        )
''', '''        columns = [
            sa.Column(col.name, col.type, primary_key=col.name in primary_key)
            for col in select.selected_columns
        ]
        table_obj = sa.Table(
            temp_name, metadata, *columns, schema=temp_schema, prefixes=["TEMPORARY"]
        )
''')
N(S, '''        temp_schema: Optional[str] = schema
        if dialect.name in ("postgresql", "sqlite"):
            temp_schema = None

        temp_name = self._generate_name(name)
''', '''        temp_schema = self._schema_of(dialect.name, schema)
        temp_name = self._generate_name(name)
''', S, '''    def create(
        self,
        conn,
''', '''    @staticmethod
    def _schema_of(dialect_name: str, schema: str) -> Optional[str]:
        return {"postgresql": None, "sqlite": None}.get(dialect_name, schema)

    def create(
        self,
        conn,
''')
N(S, '''        self.table_remap: Dict[str, str] = {}
        for table in plan.queries:
            remapped_table = ".".join(self._remap_table(*parse_table_name(table)))
            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''        pairs = [
            (".".join(self._remap_table(*parse_table_name(table))), table)
            for table in plan.queries
        ]
        self.table_remap: Dict[str, str] = {}
        for remapped_table, table in pairs:
            if remapped_table in self.table_remap:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
            self.table_remap[remapped_table] = table
''')
N(S, '''        with self.engine.connect() as conn:
            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
''', '''        ordered = self.meta.toposort()
        ordered.reverse()
        with self.engine.connect() as conn:
            for table in ordered:
                self._delete_rows(conn, table)

    def _delete_rows(self, conn, table) -> None:
        LOGGER.info("Truncating table %s", table)
        conn.execute(table.table_obj.delete())
        conn.commit()
''')
N(S, '''                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                    written = out_row[autoinc_index]
                    if autoinc_max_written is None or written > autoinc_max_written:
                        autoinc_max_written = written
''')
N(S, '''            if (schema, table_name) in self.compact_columns:
                subq = table_q.subquery()
                table_q = sa.select(
                    (
                        sa.func.row_number(type_=sa.Integer).over(
                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        + self.config.compact.start_key
                        - 1
                    ).label(SUBSETTER_COMPACT_COLUMN),
                    subq,
                )
''', '''            if (schema, table_name) in self.compact_columns:
                numbered = table_q.subquery()
                ordering = [numbered.c[name] for name in table.primary_key]
                number = sa.func.row_number(type_=sa.Integer).over(order_by=ordering)
                new_key = number + (self.config.compact.start_key - 1)
                table_q = sa.select(new_key.label(SUBSETTER_COMPACT_COLUMN), numbered)
''')
