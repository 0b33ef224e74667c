"""Edits that keep the behaviour: a ninth set, metadata, filters, common, solver, main."""

SO = "solver.py"

# --- metadata
N(MD, '''    @classmethod
    def from_schema(cls, fk: sa.ForeignKeyConstraint) -> "ForeignKey":
        assert fk.referred_table.schema is not None
        return cls(
            columns=tuple(col.name for col in fk.columns),
            dst_schema=fk.referred_table.schema,
            dst_table=fk.referred_table.name,
            dst_columns=tuple(elem.column.name for elem in fk.elements),
        )
''', '''    @classmethod
    def from_schema(cls, fk: sa.ForeignKeyConstraint) -> "ForeignKey":
        referred = fk.referred_table
        assert referred.schema is not None
        pairs = [(elem.parent.name, elem.column.name) for elem in fk.elements]
        columns, dst_columns = zip(*pairs)
        return cls(
            columns=columns,
            dst_schema=referred.schema,
            dst_table=referred.name,
            dst_columns=dst_columns,
        )

    def reversed_for(self, schema: str, name: str) -> "ForeignKey":
        return dataclasses.replace(
            self,
            columns=self.dst_columns,
            dst_schema=schema,
            dst_table=name,
            dst_columns=self.columns,
        )
''', MD, '''                dst_table.rev_foreign_keys.append(
                    ForeignKey(
                        columns=fk.dst_columns,
                        dst_schema=table.schema,
                        dst_table=table.name,
                        dst_columns=fk.columns,
                    )
                )
''', '''                dst_table.rev_foreign_keys.append(
                    fk.reversed_for(table.schema, table.name)
                )
''')
N(MD, '''        self.primary_key = tuple(
            column.name for column in table_obj.primary_key.columns
        )
        self.foreign_keys = [
            ForeignKey.from_schema(fk) for fk in table_obj.foreign_key_constraints
        ]
        self.rev_foreign_keys: List[ForeignKey] = []
''', '''        pk_columns = []
        for column in table_obj.primary_key.columns:
            pk_columns.append(column.name)
        self.primary_key = tuple(pk_columns)
        self.rev_foreign_keys: List[ForeignKey] = []
        self.foreign_keys = list(
            map(ForeignKey.from_schema, table_obj.foreign_key_constraints)
        )
''')
N(MD, '''        table_set: Set[Tuple[str, str]] = set()
        table_queue: List[Tuple[str, str]] = []
        for table_id, table_obj in metadata_obj.tables.items():
            assert table_obj.schema is not None
            if any(fnmatch(table_id, select_pattern) for select_pattern in select):
                table_set.add((table_obj.schema, table_obj.name))
                table_queue.append((table_obj.schema, table_obj.name))
''', '''        def _selected(table_id: str) -> bool:
            for select_pattern in select:
                if fnmatch(table_id, select_pattern):
                    return True
            return False

        table_queue: List[Tuple[str, str]] = [
            (table_obj.schema, table_obj.name)
            for table_id, table_obj in metadata_obj.tables.items()
            if _selected(table_id)
        ]
        table_set: Set[Tuple[str, str]] = set(table_queue)
''')
N(MD, '''        table_deps: Dict[Tuple[str, str], List[Tuple[str, str]]] = (
            collections.defaultdict(list)
        )
        for table_obj in metadata_obj.tables.values():
            assert table_obj.schema is not None
            for fk in table_obj.foreign_key_constraints:
                ref_table_obj = fk.referred_table
                assert ref_table_obj.schema is not None
                if close_forward:
                    table_deps[(table_obj.schema, table_obj.name)].append(
                        (ref_table_obj.schema, ref_table_obj.name)
                    )
                if close_backward:
                    table_deps[(ref_table_obj.schema, ref_table_obj.name)].append(
                        (table_obj.schema, table_obj.name)
                    )
''', '''        table_deps = cls._table_dependencies(
            metadata_obj, close_forward=close_forward, close_backward=close_backward
        )
''', MD, '''            for ref_schema, ref_table in table_deps[(schema, table)]:
''', '''            for ref_schema, ref_table in table_deps.get((schema, table), ()):
''', MD, '''    def track_new_table(''', '''    @staticmethod
    def _table_dependencies(metadata_obj, *, close_forward, close_backward):
        table_deps: Dict[Tuple[str, str], List[Tuple[str, str]]] = {}
        for table_obj in metadata_obj.tables.values():
            src = (table_obj.schema, table_obj.name)
            for fk in table_obj.foreign_key_constraints:
                dst = (fk.referred_table.schema, fk.referred_table.name)
                if close_forward:
                    table_deps.setdefault(src, []).append(dst)
                if close_backward:
                    table_deps.setdefault(dst, []).append(src)
        return table_deps

    def track_new_table(''')
N(MD, '''        num_selected_tables = len(table_queue)
        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
                if (ref_schema, ref_table) not in table_set:
                    table_set.add((ref_schema, ref_table))
                    table_queue.append((ref_schema, ref_table))

        return (
            cls(
                metadata_obj,
                {
                    (schema, table): TableMetadata(
                        metadata_obj.tables[f"{schema}.{table}"]
                    )
                    for schema, table in table_queue
                },
                supports_temp_reopen=engine.dialect.name != "mysql",
            ),
            table_queue[num_selected_tables:],
        )
''', '''        extra_tables: List[Tuple[str, str]] = []
        pending = collections.deque(table_queue)
        while pending:
            for ref in table_deps[pending.popleft()]:
                if ref in table_set:
                    continue
                table_set.add(ref)
                pending.append(ref)
                extra_tables.append(ref)

        tables = {
            (schema, table): TableMetadata(metadata_obj.tables[f"{schema}.{table}"])
            for schema, table in table_queue + extra_tables
        }
        result = cls(
            metadata_obj,
            tables,
            supports_temp_reopen=engine.dialect.name != "mysql",
        )
        return result, extra_tables
''')
N(MD, '''        def _key_pk(schema: str, pk: Tuple[str, ...]):
            if infer_all:
                return pk
            return (schema, pk)

''', '''        def _key_pk(schema: str, pk: Tuple[str, ...]):
            return pk if infer_all else (schema, pk)

''', MD, '''        for table in self.tables.values():
            if not table.primary_key:
                continue

            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''        keyed = [table for table in self.tables.values() if table.primary_key]
        for table in keyed:
            map_key = _key_pk(table.schema, table.primary_key)
            if map_key not in pk_map:
                pk_map[map_key] = table
                continue
            LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
            pk_map[map_key] = None
''')
N(MD, '''            fks = set(table.foreign_keys)
            for col in table.table_obj.columns:
                dst_table = pk_map.get(_key_pk(table.schema, (col.name,)))
                if dst_table is not None and dst_table is not table:
                    fk = ForeignKey(
                        columns=(col.name,),
                        dst_schema=dst_table.schema,
                        dst_table=dst_table.name,
                        dst_columns=(col.name,),
                    )
                    if fk not in fks:
                        LOGGER.info(
                            "Inferring foreign key %s->%s on %r",
                            table,
                            dst_table,
                            fk.columns,
                        )
                        table.foreign_keys.append(fk)
''', '''            existing = frozenset(table.foreign_keys)
            for col in table.table_obj.columns:
                columns = (col.name,)
                target = pk_map.get(_key_pk(table.schema, columns))
                if target is None or target is table:
                    continue
                fk = ForeignKey(columns, target.schema, target.name, columns)
                if fk in existing:
                    continue
                LOGGER.info(
                    "Inferring foreign key %s->%s on %r", table, target, fk.columns
                )
                table.foreign_keys.append(fk)
''')
N(MD, '''        pk_map: Dict[Tuple[str, Tuple[str, ...]], Optional[TableMetadata]] = {}
        for table in self.tables.values():
            if not table.primary_key:
                continue

            map_key = _key_pk(table.schema, table.primary_key)
            if map_key in pk_map:
                LOGGER.info("Duplicate primary key columns found %r", table.primary_key)
                pk_map[map_key] = None
            else:
                pk_map[map_key] = table
''', '''        candidates: Dict[Any, List[TableMetadata]] = collections.defaultdict(list)
        for table in self.tables.values():
            if table.primary_key:
                candidates[_key_pk(table.schema, table.primary_key)].append(table)
        pk_map: Dict[Any, TableMetadata] = {}
        for map_key, tables in candidates.items():
            if len(tables) == 1:
                pk_map[map_key] = tables[0]
            else:
                LOGGER.info("Duplicate primary key columns found %r", map_key)
''', MD, "from typing import Dict", "from typing import Any, Dict")
N(MD, '''        if ignore_tables is None:
            ignore_tables = set()
        return {
            f"{table.schema}.{table.name}": {
                f"{fk.dst_schema}.{fk.dst_table}"
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) not in ignore_tables
                and (fk.dst_schema, fk.dst_table) in self.tables
            }
            for table in self.tables.values()
            if (table.schema, table.name) not in ignore_tables
        }
''', '''        included = {
            key for key in self.tables if not ignore_tables or key not in ignore_tables
        }
        graph: Dict[str, Set[str]] = {}
        for table in self.tables.values():
            if (table.schema, table.name) not in included:
                continue
            edges: Set[str] = set()
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in included:
                    edges.add(f"{fk.dst_schema}.{fk.dst_table}")
            graph[f"{table.schema}.{table.name}"] = edges
        return graph
''')
N(MD, '''        reference_count = {}

        def _context(ident: SQLTableIdentifier) -> sa.Table:
            if ident.sampled:
                if self.supports_temp_reopen:
                    index = 0
                else:
                    index = reference_count.get(
                        (ident.table_schema, ident.table_name), 0
                    )
                    reference_count[(ident.table_schema, ident.table_name)] = index + 1
                return self.temp_tables[(ident.table_schema, ident.table_name, index)]
            return self.tables[(ident.table_schema, ident.table_name)].table_obj
''', '''        reference_count: Dict[Tuple[str, str], int] = collections.Counter()

        def _context(ident: SQLTableIdentifier) -> sa.Table:
            key = (ident.table_schema, ident.table_name)
            if not ident.sampled:
                return self.tables[key].table_obj
            if self.supports_temp_reopen:
                return self.temp_tables[(*key, 0)]
            index = reference_count[key]
            reference_count[key] += 1
            return self.temp_tables[(*key, index)]
''')
N(MD, '''        for table in self.tables.values():
            for fk in table.foreign_keys:
                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
                if dst_table is None:
                    continue
                dst_table.rev_foreign_keys.append(
                    ForeignKey(
                        columns=fk.dst_columns,
                        dst_schema=table.schema,
                        dst_table=table.name,
                        dst_columns=fk.columns,
                    )
                )
''', '''        for (schema, name), table in self.tables.items():
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.tables:
                    self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
                        ForeignKey(fk.dst_columns, schema, name, fk.columns)
                    )
''')

# --- solver
N(SO, '''    q = []
    for u, edges in G.items():
        if not edges:
            q.append(u)

    RG = reverse_graph(G)
    deg = {u: len(edges) for u, edges in G.items()}
    for u in q:
        for v in RG[u]:
            deg[v] -= 1
            if not deg[v]:
                # This is intended and well-defined behavior
                # pylint: disable=modified-iterating-list
                q.append(v)

    if len(q) < len(G):
        raise ValueError("Cycle detected in graph")

    return q
''', '''    parents = reverse_graph(G)
    remaining = {u: len(edges) for u, edges in G.items()}
    result = []
    ready = deque(u for u, count in remaining.items() if count == 0)
    while ready:
        u = ready.popleft()
        result.append(u)
        for v in parents[u]:
            remaining[v] -= 1
            if remaining[v] == 0:
                ready.append(v)

    if len(result) != len(G):
        raise ValueError("Cycle detected in graph")

    return result
''', SO, "import logging\n", "import logging\nfrom collections import deque\n")
N(SO, '''    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
''', '''    graphs = (G, RG)
    turn = 0
    result = [source]
    layer = [source]
    vis = {source}
    while True:
        layer = toposort_reachable(graphs[turn], layer, vis)
        if not layer:
            break
        vis |= set(layer)
        result += layer
        turn = 1 - turn

    return result
''')
N(SO, '''                if v in on_stk:
                    cyc = []
                    for w, _ in reversed(stk):
                        cyc.append(w)
                        if w == v:
                            break
                    raise CycleException(cyc[::-1])
''', '''                if v in on_stk:
                    path = [w for w, _ in stk]
                    raise CycleException(path[path.index(v) :])
''')
N(SO, '''    return [
        x[0] for x in sorted(weight.items(), key=lambda x: (x[1], x[0]), reverse=True)
    ]
''', '''    ranked = [(count, node) for node, count in weight.items()]
    ranked.sort(reverse=True)
    return [node for _, node in ranked]
''')
N(SO, '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v].add(u)
    return RG
''', '''    RG: Dict = {u: set() for u in G}
    for u, edges in G.items():
        if union:
            RG[u].update(edges)
        for v in edges:
            RG[v].add(u)
    return RG
''')

# --- common
N(C, '''    parts = full_table_name.split(".", 1)
    if len(parts) != 2:
        raise ValueError(f"Table name {full_table_name!r} contains no schema")
    return (parts[0], parts[1])
''', '''    schema, sep, name = full_table_name.partition(".")
    if not sep:
        raise ValueError(f"Table name {full_table_name!r} contains no schema")
    return schema, name
''')
N(C, '''    if dialect == "mysql":
        drivername = "mysql+pymysql"
        if not port:
            port = 3306
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    elif dialect == "postgres":
        drivername = "postgresql+psycopg2"
        if not port:
            port = 5432
        if database:
            extra_kwargs["database"] = database
    elif dialect == "sqlite":
        return sa.engine.URL.create(drivername="sqlite", database=database)
    else:
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")
''', '''    if dialect not in ("mysql", "postgres", "sqlite"):
        raise ValueError(f"Unsupported SQL dialect {dialect!r}")

    if dialect == "sqlite":
        return sa.engine.URL.create("sqlite", database=database)

    drivername, default_port = {
        "mysql": ("mysql+pymysql", 3306),
        "postgres": ("postgresql+psycopg2", 5432),
    }[dialect]
    port = port or default_port
    if dialect == "mysql":
        extra_kwargs["query"] = {"charset": "utf8mb4"}
    elif database:
        extra_kwargs["database"] = database
''')
N(C, '''    if env_prefix is not None:
        dialect = dialect or os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
        host = host or os.getenv(f"{env_prefix}HOST", "localhost")
        port = port or int(os.getenv(f"{env_prefix}PORT", "0"))
        database = database or os.getenv(f"{env_prefix}DATABASE", None)
        username = username or os.getenv(f"{env_prefix}USERNAME", None)
        password = password or os.getenv(f"{env_prefix}PASSWORD", None)
''', '''    if env_prefix is not None:

        def _env(name: str, default: Optional[str] = None):
            return os.environ.get(env_prefix + name, default)

        if not dialect:
            dialect = _env("DIALECT")  # type: ignore
        if not host:
            host = _env("HOST", "localhost")
        if not port:
            port = int(_env("PORT", "0"))
        database = database or _env("DATABASE")
        username = username or _env("USERNAME")
        password = password or _env("PASSWORD")
''')
N(C, '''            if dialect == "postgres":
                if server_verify == "identity":
                    sslmode = "verify-full"
                elif server_verify == "cert":
                    sslmode = "verify-ca"
                else:
                    sslmode = "require"

                result = {
                    "sslcert": client_cert,
                    "sslkey": client_key,
                    "sslmode": sslmode,
                    "sslrootcert": server_rootcert,
                }
                return {key: value for key, value in result.items() if value}
''', '''            if dialect == "postgres":
                sslmodes = {"identity": "verify-full", "cert": "verify-ca"}
                result = {"sslmode": sslmodes.get(server_verify, "require")}
                if client_cert:
                    result["sslcert"] = client_cert
                if client_key:
                    result["sslkey"] = client_key
                if server_rootcert:
                    result["sslrootcert"] = server_rootcert
                return result
''')
N(C, '''                result = {
                    "ca": server_rootcert,
                    "key": client_key,
                    "cert": client_cert,
                }
                result = {key: value for key, value in result.items() if value}
                if server_verify == "identity" and not server_rootcert:
                    # pymysql never checks the host name without one
                    raise ValueError("ssl server verify 'identity' needs a rootcert")
                result["check_hostname"] = server_verify == "identity"
                result["verify_mode"] = (
                    "required" if server_verify in ("cert", "identity") else "none"
                )
                return {"ssl": result}
''', '''                check_hostname = server_verify == "identity"
                if check_hostname and not server_rootcert:
                    # pymysql never checks the host name without one
                    raise ValueError("ssl server verify 'identity' needs a rootcert")
                files = (
                    ("ca", server_rootcert),
                    ("key", client_key),
                    ("cert", client_cert),
                )
                return {
                    "ssl": {
                        **{key: path for key, path in files if path},
                        "check_hostname": check_hostname,
                        "verify_mode": (
                            "required"
                            if check_hostname or server_verify == "cert"
                            else "none"
                        ),
                    }
                }
''')
N(C, '''        if self.isolation_level:
            isolation_level = self.isolation_level
        elif dialect == "sqlite":
            isolation_level = "SERIALIZABLE"
        else:
            isolation_level = "READ COMMITTED"

        engine = sa.create_engine(
            url,
            isolation_level=isolation_level,
''', '''        default_isolation = "SERIALIZABLE" if dialect == "sqlite" else "READ COMMITTED"

        engine = sa.create_engine(
            url,
            isolation_level=self.isolation_level or default_isolation,
''')
N(C, '''        @sa.event.listens_for(engine, "connect")
        def _set_session_sqls(dbapi_connection, _):
            cursor = dbapi_connection.cursor()
            try:
                if dialect == "sqlite":
                    for db_alias, db_file in self.sqlite_databases.items():
                        escaped_db_file = db_file.replace("'", "''")
                        escaped_alias = db_alias.replace('"', '""')
                        cursor.execute(
                            f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                        )

                for session_sql in self.session_sqls:
                    cursor.execute(session_sql)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
            finally:
                cursor.close()

        return engine
''', '''        setup_sqls = []
        if dialect == "sqlite":
            for db_alias, db_file in self.sqlite_databases.items():
                escaped_db_file = db_file.replace("'", "''")
                escaped_alias = db_alias.replace('"', '""')
                setup_sqls.append(
                    f"ATTACH DATABASE '{escaped_db_file}' as \\"{escaped_alias}\\""
                )
        setup_sqls.extend(self.session_sqls)

        def _set_session_sqls(dbapi_connection, _):
            cursor = dbapi_connection.cursor()
            try:
                for setup_sql in setup_sqls:
                    cursor.execute(setup_sql)
                # Session settings would otherwise be lost in the first rollback
                dbapi_connection.commit()
            finally:
                cursor.close()

        sa.event.listen(engine, "connect", _set_session_sqls)
        return engine
''')
N(C, '''    vis = set()
    stack = []

    def _push(key: Any, value: Any):
        if isinstance(value, (BaseModel, list, dict)):
            if id(value) not in vis:
                vis.add(id(value))
                stack.append(value)

    _push(None, root)
    while stack:
        data = stack.pop()
        if isinstance(data, BaseModel):
            yield data
            for field, _ in data.model_fields.items():
                _push(field, getattr(data, field))

        if isinstance(data, list):
            for idx, elem in enumerate(data):
                _push(idx, elem)

        if isinstance(data, dict):
            for key, elem in data.items():
                _push(key, elem)
''', '''    seen = set()
    pending = [root]
    while pending:
        data = pending.pop()
        if id(data) in seen:
            continue
        seen.add(id(data))

        if isinstance(data, BaseModel):
            yield data
            children = [getattr(data, field) for field in data.model_fields]
        elif isinstance(data, list):
            children = list(data)
        elif isinstance(data, dict):
            children = list(data.values())
        else:
            continue
        pending.extend(children)
''')

# --- filters
N(F, '''    cols_seen: Dict[str, int] = {}
    for index, column in enumerate(columns_act):
        if cols_seen.setdefault(column, index) != index:
            raise ValueError(f"Filter {filter_name} has duplicate column {column}")

    column_index_map = {column: index for index, column in enumerate(columns_in)}
    column_act_indices = []
    for column in columns_act:
        act_index = column_index_map.get(column)
        if act_index is None:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            )
        column_act_indices.append(act_index)
    return tuple(column_act_indices)
''', '''    duplicates = [col for col, count in Counter(columns_act).items() if count > 1]
    if duplicates:
        raise ValueError(f"Filter {filter_name} has duplicate column {duplicates[0]}")

    def _index(column: str) -> int:
        try:
            return columns_in.index(column)
        except ValueError as exc:
            raise ValueError(
                f"Filter {filter_name} refers to non-existant column {column}"
            ) from exc

    return tuple(_index(column) for column in columns_act)
''', F, "import string\n", "import string\nfrom collections import Counter\n")
N(F, '''        values_out = list(values)
        filtered_values = self.filter_values(
            [values_out[index] for index in self.column_act_indices]
        )
        for index, filtered_value in zip(self.column_act_indices, filtered_values):
            values_out[index] = filtered_value
        return values_out
''', '''        row = list(values)
        acted = list(map(row.__getitem__, self.column_act_indices))
        replaced = dict(zip(self.column_act_indices, self.filter_values(acted)))
        return [replaced.get(index, value) for index, value in enumerate(row)]
''')
N(F, '''        result = list(values)
        for filter_view in self.filter_views:
            result = filter_view.filter_view(result)
        return result
''', '''        return functools.reduce(
            lambda row, view: view.filter_view(row), self.filter_views, list(values)
        )
''', F, "import dataclasses\n", "import dataclasses\nimport functools\n")
N(F, '''        for value in values:
            if value is None:
                yield None
            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
            elif isinstance(value, float):
                yield 0.0
            elif isinstance(value, datetime):
                yield EPOCH.replace(tzinfo=value.tzinfo)
            else:
                raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''', '''        return [self._zero(value) for value in values]

    @staticmethod
    def _zero(value: Any) -> Any:
        match value:
            case None:
                return None
            case str():
                return ""
            case int():
                return 0
            case float():
                return 0.0
            case datetime():
                return EPOCH.replace(tzinfo=value.tzinfo)
        raise ValueError(f"Cannot zero unknown type {str(type(value))}")
''')
N(F, '''        columns_in = tuple(columns_in)
        self.columns_act = tuple(columns_act)
        column_act_set = set(self.columns_act)
        columns_out = tuple(
            column for column in columns_in if column not in column_act_set
        )
        super().__init__(columns_in, columns_out=columns_out)
        columns_in_index = {column: index for index, column in enumerate(columns_in)}
        self.columns_out_indices = [columns_in_index[column] for column in columns_out]
''', '''        columns_in = tuple(columns_in)
        self.columns_act = tuple(columns_act)
        omitted = frozenset(self.columns_act)
        kept = [
            (index, column)
            for index, column in enumerate(columns_in)
            if column not in omitted
        ]
        self.columns_out_indices = [index for index, _ in kept]
        super().__init__(columns_in, columns_out=[column for _, column in kept])
''')
N(F, '''        op = self.op
        if op == "is":
            return value is self.value
        if op == "is not":
            return value is not self.value
        if op == "in":
            return value in self.value  # type: ignore
        if op == "not in":
            return value not in self.value  # type: ignore
        if op == "=":
            return value == self.value
        if op == "!=":
            return value != self.value
        if op == "<":
            return value < self.value
        if op == ">":
            return value > self.value
        if op == "<=":
            return value <= self.value
        if op == ">=":
            return value >= self.value
        if op == "matches":
            return fnmatch(value, self.value)
        raise ValueError("Unknown op")
''', '''        try:
            matcher = _MATCHERS[self.op]
        except KeyError as exc:
            raise ValueError("Unknown op") from exc
        return matcher(value, self.value)
''', F, '''class MultiplexCondition(BaseModel):
''', '''_MATCHERS: Dict[str, Callable[[Any, Any], bool]] = {
    "is": operator.is_,
    "is not": operator.is_not,
    "in": lambda value, other: value in other,
    "not in": lambda value, other: value not in other,
    "=": operator.eq,
    "!=": operator.ne,
    "<": operator.lt,
    ">": operator.gt,
    "<=": operator.le,
    ">=": operator.ge,
    "matches": fnmatch,
}


class MultiplexCondition(BaseModel):
''', F, "import dataclasses\n", "import dataclasses\nimport operator\n")
N(F, '''        values_in = tuple(values)
        value = values_in[self.column_index]
        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
''', '''        values_in = list(values)
        value = values_in[self.column_index]
        chosen = next(
            (
                condition_filter
                for condition, condition_filter in zip(
                    self.conditions, self.condition_filters
                )
                if condition.match(value)
            ),
            None,
        )
        return values_in if chosen is None else chosen.filter_view(values_in)
''')
N(F, '''        self.condition_filters = tuple(
            condition.apply.construct_filter(columns_in, filter_context=filter_context)  # type: ignore
            for condition in self.conditions
        )
        for condition_filter in self.condition_filters:
            if condition_filter.columns_out != self.columns_out:
                raise ValueError(
                    "Cannot use filters with multiplex that modify columns"
                )
''', '''        condition_filters = []
        for condition in self.conditions:
            condition_filter = condition.apply.construct_filter(  # type: ignore
                self.columns_in, filter_context=filter_context
            )
            if condition_filter.columns_out != self.columns_out:
                raise ValueError(
                    "Cannot use filters with multiplex that modify columns"
                )
            condition_filters.append(condition_filter)
        self.condition_filters = tuple(condition_filters)
''')
N(F, '''class FilterRandomInt(FilterColumns):
''', '''class FilterRandomColumns(FilterColumns):
    def __init__(
        self,
        columns_in: Iterable[str],
        columns_act: Iterable[str],
        *,
        rng: Optional[Random] = None,
    ) -> None:
        super().__init__(columns_in, columns_act)
        self.rng = rng if rng is not None else Random()


class FilterRandomInt(FilterRandomColumns):
''', F, '''        super().__init__(columns_in, columns_act)
        self.low = low
        self.high = high
        self.rng = rng or Random()

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        return (self.rng.randint(self.low, self.high) for _ in values)


class FilterRandomFloat(FilterColumns):
''', '''        super().__init__(columns_in, columns_act, rng=rng)
        self.low = low
        self.high = high

    def filter_values(self, values: List[Any]) -> Iterable[Any]:
        return [self.rng.randint(self.low, self.high) for _ in values]


class FilterRandomFloat(FilterRandomColumns):
''', F, '''        super().__init__(columns_in, columns_act)
        self.low = low
        self.high = high
        self.rng = rng or Random()
''', '''        super().__init__(columns_in, columns_act, rng=rng)
        self.low = low
        self.high = high
''', F, '''class FilterRandomString(FilterColumns):
''', '''class FilterRandomString(FilterRandomColumns):
''', F, '''        super().__init__(columns_in, columns_act)
        self.length = length
        self.alphabet = alphabet
        self.rng = rng or Random()
''', '''        super().__init__(columns_in, columns_act, rng=rng)
        self.length = length
        self.alphabet = alphabet
''')
N(F, '''            try:
                try:
                    module = import_module(self.module)
                except ImportError as exc:
                    raise ValueError(
                        f"Failed to import module {self.module} for plugin"
                    ) from exc
                try:
                    clazz = getattr(module, self.clazz)
                except AttributeError as exc:
                    raise ValueError(
                        f"Could not find plugin attribute {self.clazz} in {self.module}"
                    ) from exc
                plugin = clazz(**self.kwargs)
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as exc:
                raise ValueError(
                    f"Uncaught {type(exc).__name__} when attempting to "
                    f"instantiate plugin {self.module}.{self.clazz}: {exc}"
                ) from exc

            return FilterPlugin(columns_in, self.columns, plugin)
''', '''            try:
                plugin = self._load_class()(**self.kwargs)
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as exc:
                raise ValueError(
                    f"Uncaught {type(exc).__name__} when attempting to "
                    f"instantiate plugin {self.module}.{self.clazz}: {exc}"
                ) from exc

            return FilterPlugin(columns_in, self.columns, plugin)

        def _load_class(self):
            try:
                module = import_module(self.module)
            except ImportError as exc:
                raise ValueError(
                    f"Failed to import module {self.module} for plugin"
                ) from exc
            if not hasattr(module, self.clazz):
                raise ValueError(
                    f"Could not find plugin attribute {self.clazz} in {self.module}"
                )
            return getattr(module, self.clazz)
''')
N(F, '''        cols_in = tuple(columns_in)
        cols_out = cols_in
        filter_views = []
        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = filter_view.columns_out
            filter_views.append(filter_view)
        return cls(cols_in, cols_out, filter_views)
''', '''        cols_in = tuple(columns_in)
        filter_views: List[FilterView] = []
        for filter_config in filter_configs:
            current = filter_views[-1].columns_out if filter_views else cols_in
            filter_views.append(
                filter_config.construct_filter(current, filter_context=filter_context)  # type: ignore
            )
        cols_out = filter_views[-1].columns_out if filter_views else cols_in
        return cls(cols_in, cols_out, filter_views)
''')
N(F, '''        faker = faker or Faker()
        self.faker: Faker = faker.unique if unique else faker  # type: ignore
''', '''        base = Faker() if faker is None else faker
        if unique:
            self.faker = base.unique
        else:
            self.faker = base
''')
N(F, '''        super().__init__(columns_in, columns_act)
        self.values = tuple(values)
        if len(self.values) != len(self.columns_act):
            raise ValueError(
                "Number of columns and values must match for constant filter"
            )
''', '''        super().__init__(columns_in, columns_act)
        constants = tuple(values)
        if len(constants) == len(self.columns_act):
            self.values = constants
        else:
            raise ValueError(
                "Number of columns and values must match for constant filter"
            )
''')
N(F, '''            alphabet = _ALPHABET_MAP.get(self.alphabet, self.custom_alphabet)
            if not alphabet:
                raise ValueError("Custom alphabet cannot be empty")
''', '''            if self.alphabet == "custom":
                alphabet = self.custom_alphabet
                if not alphabet:
                    raise ValueError("Custom alphabet cannot be empty")
            else:
                alphabet = _ALPHABET_MAP[self.alphabet]
''')

# --- main
N(MA, '''    def _dict_merge(lhs, rhs):
        if isinstance(lhs, dict) and isinstance(rhs, dict):
            result = dict(lhs)
            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs

    try:
''', '''    try:
''', MA, '''def _get_config(args) -> SubsetterConfig:
    config_files = args.config
    if not config_files:
        config_files = ["subsetter.yaml"]

''', '''def _dict_merge(lhs, rhs):
    if not (isinstance(lhs, dict) and isinstance(rhs, dict)):
        return rhs
    return {
        **lhs,
        **{
            key: _dict_merge(lhs[key], val) if key in lhs else val
            for key, val in rhs.items()
        },
    }


def _get_config(args) -> SubsetterConfig:
    config_files = args.config or ["subsetter.yaml"]

''')
N(MA, '''            if args.action == "plan":
                _main_plan(args)
            elif args.action == "sample":
                _main_sample(args)
            elif args.action == "subset":
                _main_subset(args)
            else:
                raise RuntimeError("Unknown action")
''', '''            actions = {
                "plan": _main_plan,
                "sample": _main_sample,
                "subset": _main_subset,
            }
            action = actions.get(args.action)
            if action is None:
                raise RuntimeError("Unknown action")
            action(args)
''')
N(MA, '''    plan = Planner(config.source, config.planner).plan()
    try:
        ctx = contextlib.nullcontext(sys.stdout)
        if args.plan_output:
            ctx = open(args.plan_output, "w", encoding="utf-8")
        with ctx as fplan:
            yaml.dump(
                plan.model_dump(exclude_unset=True, by_alias=True),
                stream=fplan,
                default_flow_style=False,
                width=2**20,
                sort_keys=True,
            )
    except IOError as exc:
''', '''    plan = Planner(config.source, config.planner).plan()
    try:
        plan_text = yaml.dump(
            plan.model_dump(exclude_unset=True, by_alias=True),
            default_flow_style=False,
            width=2**20,
            sort_keys=True,
        )
        if args.plan_output:
            with open(args.plan_output, "w", encoding="utf-8") as fplan:
                fplan.write(plan_text)
        else:
            sys.stdout.write(plan_text)
    except IOError as exc:
''')
N(MA, '''    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )


def _main_subset(args):
''', '''    _run_sampler(config, plan, args)


def _run_sampler(config, plan, args):
    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )


def _main_subset(args):
''', MA, '''    plan = Planner(config.source, config.planner).plan()
    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )
''', '''    _run_sampler(config, Planner(config.source, config.planner).plan(), args)
''')
N(MA, '''    try:
        with _open_config_path(args.plan) as fplan:
            plan = SubsetPlan.model_validate(yaml.safe_load(fplan))
    except ValueError as exc:
        LOGGER.error(
            "Unexpected plan file format: %s",
            exc,
            exc_info=args.verbose > 1,
        )
        sys.exit(1)
    except IOError as exc:
        LOGGER.error(
            "Could not open plan file %r: %s",
            args.plan,
            exc,
            exc_info=args.verbose > 1,
        )
        sys.exit(1)

''', '''    def _fail(message, *message_args):
        LOGGER.error(message, *message_args, exc_info=args.verbose > 1)
        sys.exit(1)

    try:
        with _open_config_path(args.plan) as fplan:
            plan_data = yaml.safe_load(fplan)
            plan = SubsetPlan.model_validate(plan_data)
    except IOError as exc:
        _fail("Could not open plan file %r: %s", args.plan, exc)
    except ValueError as exc:
        _fail("Unexpected plan file format: %s", exc)

''')
N(MA, '''@contextlib.contextmanager
def _open_config_path(path: str):
    if path == "-":
        yield sys.stdin
    else:
        with open(path, "r", encoding="utf-8") as fconfig:
            yield fconfig
''', '''def _open_config_path(path: str):
    if path == "-":
        return contextlib.nullcontext(sys.stdin)
    return open(path, encoding="utf-8")
''')
