"""More edits that keep the behaviour: planner, plan statements, sampler, command line."""
SO = "solver.py"

# --- plan statements
N(PM, '''        simp_conditions: List["SQLWhereClause"] = [
            simp_condition
            for condition in self.conditions
            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseTrue
            )
        ]
        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseAnd) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
        if any(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")
''', '''        simp_conditions: List["SQLWhereClause"] = []
        for condition in self.conditions:
            simp_condition = condition.simplify()
            if isinstance(simp_condition, SQLWhereClauseFalse):
                return SQLWhereClauseFalse(type_="false")
            if isinstance(simp_condition, SQLWhereClauseAnd):
                simp_conditions.extend(simp_condition.conditions)
            elif not isinstance(simp_condition, SQLWhereClauseTrue):
                simp_conditions.append(simp_condition)
''')
N(PM, '''        simp_conditions: List["SQLWhereClause"] = [
            simp_condition
            for condition in self.conditions
            if not isinstance(
                simp_condition := condition.simplify(), SQLWhereClauseFalse
            )
        ]
        simp_conditions = list(
            itertools.chain(
                *(
                    cond.conditions if isinstance(cond, SQLWhereClauseOr) else (cond,)
                    for cond in simp_conditions
                )
            )
        )
''', '''        simplified = [condition.simplify() for condition in self.conditions]
        simp_conditions: List["SQLWhereClause"] = []
        for cond in simplified:
            if isinstance(cond, SQLWhereClauseFalse):
                continue
            if isinstance(cond, SQLWhereClauseOr):
                simp_conditions += cond.conditions
            else:
                simp_conditions.append(cond)
''')
N(PM, '''        if len(simp_conditions) == 0:
            return SQLWhereClauseTrue(type_="true")
        if len(simp_conditions) == 1:
            return simp_conditions[0]
        return SQLWhereClauseAnd(type_="and", conditions=simp_conditions)
''', '''        if not simp_conditions:
            return SQLWhereClauseTrue(type_="true")
        if len(simp_conditions) > 1:
            return SQLWhereClauseAnd(type_="and", conditions=simp_conditions)
        (only,) = simp_conditions
        return only
''')
N(PM, '''        if self.threshold <= 0:
            return SQLWhereClauseFalse(type_="false")
        if self.threshold >= 1:
            return SQLWhereClauseTrue(type_="true")
        return self
''', '''        if 0 < self.threshold < 1:
            return self
        if self.threshold >= 1:
            return SQLWhereClauseTrue(type_="true")
        return SQLWhereClauseFalse(type_="false")
''')
N(PM, '''        if not self.where:
            return self
        simp_where = self.where.simplify()
        kwargs = {
            "type_": self.type_,
            "from_": self.from_,
        }
        if not isinstance(simp_where, SQLWhereClauseTrue):
            kwargs["where"] = simp_where
        if self.columns is not None:
            kwargs["columns"] = self.columns
        if self.limit is not None:
            kwargs["limit"] = self.limit
        if self.joins:
            kwargs["joins"] = self.joins
            kwargs["joins_outer"] = self.joins_outer

        return SQLStatementSelect(**kwargs)  # type: ignore
''', '''        if self.where is None:
            return self
        kwargs: Dict[str, Any] = {"type_": self.type_, "from_": self.from_}
        where = self.where.simplify()
        if not isinstance(where, SQLWhereClauseTrue):
            kwargs.update(where=where)
        if self.joins:
            kwargs.update(joins=self.joins, joins_outer=self.joins_outer)
        for name in ("columns", "limit"):
            value = getattr(self, name)
            if value is not None:
                kwargs[name] = value
        return SQLStatementSelect(**kwargs)
''')
N(PM, '''        for statement in simp_statements:
            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
            if statement.joins:
                break
        else:
            return SQLStatementSelect(
''', '''        mergeable = all(
            statement.from_ == statement0.from_
            and statement.columns == statement0.columns
            and statement.limit is None
            and not statement.joins
            for statement in simp_statements
        )
        if mergeable:
            return SQLStatementSelect(
''')
N(PM, '''        simp_statements = [
            simp_statement
            for statement in self.statements
            if not isinstance(
                (simp_statement := statement.simplify()).where, SQLWhereClauseFalse
            )
        ]

        if not simp_statements:
            return self.statements[0].simplify()
''', '''        all_statements = [statement.simplify() for statement in self.statements]
        simp_statements = [
            statement
            for statement in all_statements
            if not isinstance(statement.where, SQLWhereClauseFalse)
        ]
        if len(simp_statements) == 0:
            return all_statements[0]
''')
N(PM, '''        selects = []
        for statement in self.statements:
            select = statement.build(context)
            if statement.limit is not None:
                # Not all dialects support ordering or limits directly within a union
                select = sa.select(select.subquery())
            selects.append(select)
        return sa.union(*selects)
''', '''        def _build_part(statement: SQLStatementSelect):
            select = statement.build(context)
            if statement.limit is None:
                return select
            # Not all dialects support ordering or limits directly within a union
            return sa.select(select.subquery())

        return sa.union(*map(_build_part, self.statements))
''')
N(PM, '''            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()

                if join.half_unique and table_obj.primary_key:
                    joined = joined.join(
                        right,
                        onclause=sa.and_(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        ),
                        isouter=self.joins_outer,
                    )
                    joined_cols.extend(
                        right.c[rht_col] for rht_col in join.right_columns
                    )
                else:
                    exists_constraints.append(
                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        )
                    )
''', '''            for join in self.joins:  # pylint: disable=not-an-iterable
                right = join.right.build(context).alias()
                matches = [
                    table_obj.c[lft_col] == right.c[rht_col]
                    for lft_col, rht_col in zip(join.left_columns, join.right_columns)
                ]
                if not (join.half_unique and table_obj.primary_key):
                    exists_constraints.append(sa.exists().where(*matches))
                    continue
                joined = joined.join(
                    right, onclause=sa.and_(*matches), isouter=self.joins_outer
                )
                joined_cols += [right.c[rht_col] for rht_col in join.right_columns]
''')
N(PM, '''            if self.joins_outer:
                exists_constraints.extend(col.is_not(None) for col in joined_cols)
                stmt = stmt.where(sa.or_(*exists_constraints))
            elif exists_constraints:
                stmt = stmt.where(sa.and_(*exists_constraints))
''', '''            if self.joins_outer:
                references = [
                    *exists_constraints,
                    *(col.is_not(None) for col in joined_cols),
                ]
                stmt = stmt.where(sa.or_(*references))
            elif exists_constraints:
                stmt = stmt.where(*exists_constraints)
''')
N(PM, '''        if self.joins:
            joined_cols: List[sa.ColumnExpression] = []
''', '''        if self.joins is not None and len(self.joins) > 0:
            joined_cols: List[sa.ColumnExpression] = []
''')
N(PM, '''        op = self.operator
        column = table_obj.columns[self.column]
        if op == "<":
            return column < self.value
        if op == ">":
            return column > self.value
        if op == "=":
            return column == self.value
        if op in ("<>", "!="):
            return column != self.value
        if op == "like":
            return column.like(self.value)
        if op == "not like":
            return sa.not_(column.like(self.value))
        raise ValueError(f"Unknown operator {op!r}")
''', '''        build_op = {
            "<": lambda column, value: column < value,
            ">": lambda column, value: column > value,
            "=": lambda column, value: column == value,
            "<>": lambda column, value: column != value,
            "!=": lambda column, value: column != value,
            "like": lambda column, value: column.like(value),
            "not like": lambda column, value: sa.not_(column.like(value)),
        }.get(self.operator)
        if build_op is None:
            raise ValueError(f"Unknown operator {self.operator!r}")
        return build_op(table_obj.columns[self.column], self.value)
''')
N(PM, '''        columns = sa.tuple_(*(table_obj.columns[col_name] for col_name in self.columns))
        if isinstance(self.values, list):
            clause = columns.in_(self.values)
        else:
            clause = columns.in_(self.values.build(context))
        if self.negated:
            clause = sa.not_(clause)
        return clause
''', '''        columns = sa.tuple_(*[table_obj.columns[name] for name in self.columns])
        values = (
            self.values
            if isinstance(self.values, list)
            else self.values.build(context)
        )
        clause = columns.in_(values)
        return sa.not_(clause) if self.negated else clause
''')
N(PM, '''        if self.sql is not None:
            stmt = sa.text(self.sql)
            if self.sql_params is not None:
                stmt = stmt.bindparams(**self.sql_params)
            return stmt
        if self.statement is not None:
            return self.statement.build(context)
        raise ValueError("One of 'sql' or 'select' must be set")
''', '''        if self.sql is None:
            if self.statement is None:
                raise ValueError("One of 'sql' or 'select' must be set")
            return self.statement.build(context)

        return sa.text(self.sql).bindparams(**(self.sql_params or {}))
''')
# --- planner
N(P, '''        queries: Dict[str, SQLTableQuery] = {}
        for schema, table_name in sorted(self.passthrough_tables):
            queries[f"{schema}.{table_name}"] = SQLTableQuery(
                statement=SQLStatementSelect(
                    type_="select",
                    from_=SQLTableIdentifier(
                        table_schema=schema,
                        table_name=table_name,
                    ),
                )
            )

        processed = set()
        for table in order:
            schema, table_name = parse_table_name(table)
            processed.add((schema, table_name))
            queries[table] = self._plan_table(
                self.meta.tables[(schema, table_name)],
                processed,
                target=self.config.targets.get(table),
            )

        return SubsetPlan(
            queries=queries,
            passthrough=[
                f"{schema}.{table_name}"
                for schema, table_name in sorted(self.passthrough_tables)
            ],
        )
''', '''        passthrough = [
            f"{schema}.{table_name}"
            for schema, table_name in sorted(self.passthrough_tables)
        ]
        queries = {name: self._passthrough_query(name) for name in passthrough}

        processed: Set[Tuple[str, str]] = set()
        for name in order:
            key = parse_table_name(name)
            processed.add(key)
            queries[name] = self._plan_table(
                self.meta.tables[key], processed, self.config.targets.get(name)
            )
        return SubsetPlan(queries=queries, passthrough=passthrough)

    @staticmethod
    def _passthrough_query(name: str) -> SQLTableQuery:
        schema, table_name = parse_table_name(name)
        source = SQLTableIdentifier(table_schema=schema, table_name=table_name)
        return SQLTableQuery(
            statement=SQLStatementSelect(type_="select", from_=source)
        )
''')
N(P, '''        foreign_keys = sorted(
            fk
            for fk in table.foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
        rev_foreign_keys = sorted(
            fk
            for fk in table.rev_foreign_keys
            if (fk.dst_schema, fk.dst_table) in processed
        )
''', '''        def _processed(keys: Iterable[ForeignKey]) -> List[ForeignKey]:
            return sorted(
                fk for fk in keys if (fk.dst_schema, fk.dst_table) in processed
            )

        foreign_keys = _processed(table.foreign_keys)
        rev_foreign_keys = _processed(table.rev_foreign_keys)
''')
N(P, '''        def _is_distinct(table_obj: sa.Table, cols: Iterable[str]) -> bool:
            cols_st = set(cols)
            for constraint in table_obj.constraints:
                if isinstance(
                    constraint, (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
                ):
                    constraint_cols = set(col.name for col in constraint.columns)
                    if constraint_cols <= cols_st:
                        return True
            return False
''', '''        def _is_distinct(table_obj: sa.Table, cols: Iterable[str]) -> bool:
            names = frozenset(cols)
            return any(
                names.issuperset(col.name for col in constraint.columns)
                for constraint in table_obj.constraints
                if isinstance(
                    constraint, (sa.PrimaryKeyConstraint, sa.UniqueConstraint)
                )
            )
''')
N(P, '''        fk_joins = []
        for fk in foreign_keys or rev_foreign_keys:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            half_unique = _is_distinct(table.table_obj, fk.columns) or _is_distinct(
                dst_table.table_obj, fk.dst_columns
            )
            fk_joins.append(
                SQLLeftJoin(
                    right=SQLTableIdentifier(
                        table_schema=fk.dst_schema,
                        table_name=fk.dst_table,
                        sampled=True,
                    ),
                    left_columns=list(fk.columns),
                    right_columns=list(fk.dst_columns),
                    half_unique=half_unique,
                )
            )
''', '''        def _join(fk: ForeignKey) -> SQLLeftJoin:
            dst_table = self.meta.tables[(fk.dst_schema, fk.dst_table)]
            return SQLLeftJoin(
                right=SQLTableIdentifier(
                    table_schema=fk.dst_schema,
                    table_name=fk.dst_table,
                    sampled=True,
                ),
                left_columns=list(fk.columns),
                right_columns=list(fk.dst_columns),
                half_unique=(
                    _is_distinct(dst_table.table_obj, fk.dst_columns)
                    or _is_distinct(table.table_obj, fk.columns)
                ),
            )

        fk_joins = [_join(fk) for fk in (foreign_keys or rev_foreign_keys)]
''')
N(P, '''        conf_constraints_sql: List[SQLWhereClause] = []
        for conf_constraint in conf_constraints:
            if conf_constraint.column not in table.table_obj.columns:
                raise ValueError(
                    f"Table {table} has no column {conf_constraint.column!r} for table constraint",
                )

            conf_constraints_sql.append(
                SQLWhereClauseOperator(
                    type_="operator",
                    operator=conf_constraint.operator,
                    column=conf_constraint.column,
                    value=conf_constraint.value,
                )
            )
''', '''        for conf_constraint in conf_constraints:
            if conf_constraint.column not in table.table_obj.columns:
                raise ValueError(
                    f"Table {table} has no column {conf_constraint.column!r} for table constraint",
                )
        conf_constraints_sql: List[SQLWhereClause] = [
            SQLWhereClauseOperator(
                type_="operator",
                operator=constraint.operator,
                column=constraint.column,
                value=constraint.value,
            )
            for constraint in conf_constraints
        ]
''')
N(P, '''            target_constraints: List[SQLWhereClause] = []
            if target.percent is not None:
                target_constraints.append(
                    SQLWhereClauseRandom(
                        type_="random", threshold=target.percent / 100.0
                    )
                )

            if target.sql is not None:
                target_constraints.append(
                    SQLWhereClauseSQL(
                        type_="sql",
                        sql=target.sql,
                    )
                )

            for column, patterns in target.like.items():
                target_constraints.extend(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    for pattern in patterns
                )

            for column, in_list in target.in_.items():
                target_constraints.append(
                    SQLWhereClauseIn(
                        type_="in",
                        columns=[column],
                        values=[[value] for value in in_list],
                    )
                )

            if target.all_:
                target_constraints.clear()
            target_constraints.extend(conf_constraints_sql)
''', '''            target_constraints = [
                *([] if target.all_ else self._target_constraints(target)),
                *conf_constraints_sql,
            ]
''', P, '''    def _plan_table(
        self,
''', '''    @staticmethod
    def _target_constraints(
        target: PlannerConfig.TargetConfig,
    ) -> List[SQLWhereClause]:
        result: List[SQLWhereClause] = []
        if target.percent is not None:
            result.append(
                SQLWhereClauseRandom(type_="random", threshold=target.percent / 100.0)
            )
        if target.sql is not None:
            result.append(SQLWhereClauseSQL(type_="sql", sql=target.sql))
        for column, patterns in target.like.items():
            for pattern in patterns:
                result.append(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                )
        for column, in_list in target.in_.items():
            values = [[value] for value in in_list]
            result.append(SQLWhereClauseIn(type_="in", columns=[column], values=values))
        return result

    def _plan_table(
        self,
''')
N(P, '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
''', '''            kept = []
            for fk in table.foreign_keys:
                if fk.dst_schema == dst_schema and fk.dst_table == dst_table_name:
                    continue
                kept.append(fk)
            table.foreign_keys = kept
''')
N(P, '''        not_found_tables = set()
        for schema, table_name in self.passthrough_tables:
            table = self.meta.tables.get((schema, table_name))
            if table is None:
                not_found_tables.add((schema, table_name))
                LOGGER.warning(
                    "Could not find passthrough table %s.%s", schema, table_name
                )
                continue
''', '''        not_found_tables = self.passthrough_tables - set(self.meta.tables)
        for schema, table_name in sorted(not_found_tables):
            LOGGER.warning("Could not find passthrough table %s.%s", schema, table_name)

        for schema, table_name in self.passthrough_tables - not_found_tables:
            table = self.meta.tables[(schema, table_name)]
''')
N(P, '''            src_missing_cols = {
                col
                for col in extra_fk.src_columns
                if col not in table.table_obj.columns
            }
            if src_missing_cols:
''', '''            src_missing_cols = set(extra_fk.src_columns) - {
                col.name for col in table.table_obj.columns
            }
            if src_missing_cols:
''')
N(P, '''        for target in self.config.targets:
            if target not in graph:
                raise ValueError(f"Cannot target unselected table {target}")
''', '''        unselected = [target for target in self.config.targets if target not in graph]
        if unselected:
            raise ValueError(f"Cannot target unselected table {unselected[0]}")
''')
N(P, '''        for table in self.meta.tables.values():
            if (table.schema, table.name) in self.ignore_tables:
                continue
            for fk in table.foreign_keys:
                if (fk.dst_schema, fk.dst_table) in self.ignore_tables:
                    raise ValueError(
''', '''        checked = [
            table
            for key, table in self.meta.tables.items()
            if key not in self.ignore_tables
        ]
        for table in checked:
            for fk in table.foreign_keys:
                ref = (fk.dst_schema, fk.dst_table)
                if ref in self.ignore_tables:
                    raise ValueError(
''')
N(P, '''        self._remove_ignore_fks()
        self._add_extra_fks()
        if self.config.include_dependencies:
            self._check_ignore_tables()
        self._check_passthrough_tables()

        order = self._solve_order()
''', '''        self._prepare_foreign_keys()
        self._check_passthrough_tables()
        order = self._solve_order()
''', P, '''    def _solve_order(self) -> List[str]:
''', '''    def _prepare_foreign_keys(self) -> None:
        self._remove_ignore_fks()
        self._add_extra_fks()
        if self.config.include_dependencies:
            self._check_ignore_tables()

    def _solve_order(self) -> List[str]:
''')
# --- sampler: temporary tables
N(S, '''        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
        if not name:
            name = "anon"
        # Table names are not case-sensitive in every dialect
        cnt = self.name_counts.get(name.lower(), 0)
        self.name_counts[name.lower()] = cnt + 1
        if cnt:
            return f"{self.NAME_PREFIX}{name}_{cnt}"
        return f"{self.NAME_PREFIX}{name}"
''', '''        name = re.sub(r"[^0-9A-Za-z]", "", name)[:40] or "anon"
        # Table names are not case-sensitive in every dialect
        key = name.lower()
        count = self.name_counts.setdefault(key, 0)
        self.name_counts[key] += 1
        suffix = f"_{count}" if count > 0 else ""
        return self.NAME_PREFIX + name + suffix
''')
N(S, '''        temp_schema: Optional[str] = schema
        if dialect.name in ("postgresql", "sqlite"):
            temp_schema = None

        temp_name''', '''        implicit_schema = dialect.name in ("postgresql", "sqlite")
        temp_schema = None if implicit_schema else schema
        temp_name''')
N(S, '''        for idx, index_cols in enumerate(indexes):
            if index_cols == primary_key:
                continue
            # For some''', '''        wanted = [
            (idx, index_cols)
            for idx, index_cols in enumerate(indexes)
            if index_cols != primary_key
        ]
        for idx, index_cols in wanted:
            # For some''')
# --- sampler: conflicts
N(S, '''        if not self.table.primary_key:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
        else:
            for column in self.table.primary_key:
                self.non_pk_columns.discard(column.name)
            if self.conflict_strategy == "replace" and not self.non_pk_columns:
                # If there are no other columns outside of the primary key the replace
                # strategy is meaningless and we should just skip.
                self.conflict_strategy = "skip"
''', '''        if self.table.primary_key:
            self.non_pk_columns -= {column.name for column in self.table.primary_key}
            if not self.non_pk_columns and self.conflict_strategy == "replace":
                # If there are no other columns outside of the primary key the replace
                # strategy is meaningless and we should just skip.
                self.conflict_strategy = "skip"
        else:
            # We only attempt to do this if there is a primary key
            self.conflict_strategy = "error"
''')
N(S, '''        stmt = postgresql.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
        return compiler.process(stmt, **kwargs)
''', '''        return compiler.process(
            self._on_conflict(postgresql.insert(self.table)), **kwargs
        )

    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        return compiler.process(self._on_conflict(sqlite.insert(self.table)), **kwargs)

    def _on_conflict(self, stmt):
        if self.conflict_strategy == "skip":
            return stmt.on_conflict_do_nothing()
        if self.conflict_strategy == "replace":
            return stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        return stmt
''')
# --- sampler: identity columns
N(S, '''    if (
        not _autoincrement_needs_updating(engine)
        or table.autoincrement_column is None
        or value is None
    ):
        return
    assert engine.dialect.name == "postgresql"

    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
        return
''', '''    if value is None:
        return
    if not _autoincrement_needs_updating(engine):
        return
    if table.autoincrement_column is None:
        return

    curval = _autoincrement_get(engine, table)
    if not (curval is None or curval <= value):
        return
''')
N(S, '''                if autoinc_index != -1:
                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
''', '''                if autoinc_index >= 0:
                    written = out_row[autoinc_index]
                    if autoinc_max_written is None or written > autoinc_max_written:
                        autoinc_max_written = written
''')
# --- sampler: directory output
N(S, '''        with open(output_path, "w", encoding="utf-8") as fdump:
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else list(row)
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                    fdump.write("\\n")
''', '''        def _records():
            for row in result_set:
                for iteration in range(multiplier):
                    out_row = filter_view.filter_view(row) if filter_view else list(row)
                    for index in multiplied_indexes:
                        out_row[index] = _multiply_column(
                            out_row[index], multiplier, iteration
                        )
                    yield dict(zip(columns_out, out_row))

        with open(output_path, "w", encoding="utf-8") as fdump:
            for record in _records():
                fdump.write(json.dumps(record, default=str) + "\\n")
''')
N(S, '''        multiplied_indexes = [
            ind
            for ind, col_name in enumerate(columns_out)
            if col_name in (column_multipliers or set())
        ]
        with open(''', '''        multiplied = column_multipliers or set()
        multiplied_indexes = []
        for ind, col_name in enumerate(columns_out):
            if col_name in multiplied:
                multiplied_indexes.append(ind)
        with open(''')
# --- sampler: merging
N(S, '''        pk_max_values = {}
        self.table_offsets.clear()
        for source_table in self.plan.queries:
            if source_table in self.passthrough_tables:
                continue

            schema, table_name''', '''        pk_max_values = {}
        self.table_offsets = {}
        sampled_tables = [
            name for name in self.plan.queries if name not in self.passthrough_tables
        ]
        for source_table in sampled_tables:
            schema, table_name''')
N(S, '''            with self.engine.connect() as conn:
                max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))

            pk_max_values[source_table] = max_pk_val
            if max_pk_val is not None:
                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
''', '''            max_pk_val = self._max_value(pk_col)
            pk_max_values[source_table] = max_pk_val
            if max_pk_val is None:
                continue
            offsets = self.table_offsets[(schema, table_name)]
            offsets[pk_col.name] = max_pk_val + 1
''', S, '''    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta''', '''    def _max_value(self, column: sa.Column) -> Optional[int]:
        stmt = sa.select(sa.func.max(column))
        with self.engine.connect() as conn:
            return conn.scalar(stmt)

    def create(self) -> None:
        """Create any missing tables in destination from the source schema"""
        source_meta''')
# --- sampler: output
N(S, '''        missing_columns = {
            col for col in columns_out if col not in table.table_obj.columns
        }
        if missing_columns:
''', '''        missing_columns = set(columns_out) - set(table.table_obj.columns.keys())
        if missing_columns:
''')
N(S, '''        result = []
        insert_order_mapped = [str(table) for table in self.meta.toposort()]
        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        for table in insert_order_mapped:
            remapped_table = self.table_remap.get(table)
            if remapped_table:
                result.append(remapped_table)
        return result
''', '''        destination_order = [str(table) for table in self.meta.toposort()]
        missing_tables = sorted(
            table for table in self.table_remap if table not in set(destination_order)
        )
        if missing_tables:
            raise ValueError(f"Destination is missing expected tables {missing_tables}")
        return [
            self.table_remap[table]
            for table in destination_order
            if table in self.table_remap
        ]
''')
N(S, '''        for row in result_set:
            for iteration in range(multiplier):
                out_row = filter_view.filter_view(row) if filter_view else row
                for index in multiplied_indexes:
                    out_row[index] = _multiply_column(
                        out_row[index], multiplier, iteration
                    )
                if offsets is not None:
                    for index, offset in offsets:
                        if out_row[index] is not None:
                            out_row[index] += offset
''', '''        def _transform(row, iteration: int):
            out_row = filter_view.filter_view(row) if filter_view else row
            for index in multiplied_indexes:
                out_row[index] = _multiply_column(out_row[index], multiplier, iteration)
            for index, offset in offsets or []:
                if out_row[index] is not None:
                    out_row[index] = out_row[index] + offset
            return out_row

        for row in result_set:
            for iteration in range(multiplier):
                out_row = _transform(row, iteration)
''')
N(S, '''        offsets = None
        if table_offsets := self.table_offsets.get((schema, table_name)):
            offsets = [
                (index, table_offsets[col])
                for index, col in enumerate(columns_out)
                if col in table_offsets
            ]
''', '''        table_offsets = self.table_offsets.get((schema, table_name), {})
        offsets = []
        for index, col in enumerate(columns_out):
            if col in table_offsets:
                offsets.append((index, table_offsets[col]))
''')
N(S, '''        self.table_remap: Dict[str, str] = {}
        for table in plan.queries:
            remapped_table = ".".join(self._remap_table(*parse_table_name(table)))
            if self.table_remap.setdefault(remapped_table, table) != table:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
''', '''        self.table_remap: Dict[str, str] = {}
        for table in plan.queries:
            schema, table_name = self._remap_table(*parse_table_name(table))
            remapped_table = f"{schema}.{table_name}"
            if remapped_table in self.table_remap:
                raise ValueError(
                    f"Multiple tables remapped to the same name {remapped_table}"
                )
            self.table_remap[remapped_table] = table
''')
# --- sampler: top level
N(S, '''        for table, filters in self.config.filters.items():
            if not filters:
                continue

            schema, table_name = parse_table_name(table)
            tbl = meta.tables.get((schema, table_name))
            if tbl is None:
                LOGGER.warning("Found filters for unknown table %s", table)
                continue

            FilterViewChain''', '''        configured = {
            table: filters for table, filters in self.config.filters.items() if filters
        }
        for table, filters in configured.items():
            key = parse_table_name(table)
            if key not in meta.tables:
                LOGGER.warning("Found filters for unknown table %s", table)
                continue
            tbl = meta.tables[key]
            FilterViewChain''')
N(S, '''        while True:
            changes = False

            for table_name in plan.queries:
                table = meta.tables[parse_table_name(table_name)]

                cols = result.get(table_name, set())
                start_len = len(cols)
                for fk in table.foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    cols.update(
                        src_col
                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
                    )

                if cols and table_name in ignore_tables:
                    raise ValueError(
                        "Passthrough foreign key points to multiplied column"
                    )

                changes = changes or len(cols) > start_len

            if not changes:
                break
''', '''        changes = True
        while changes:
            changes = False

            for table_name in plan.queries:
                table = meta.tables[parse_table_name(table_name)]

                cols = result.get(table_name, set())
                before = set(cols)
                for fk in table.foreign_keys:
                    dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
                    for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                        if dst_col in dst_mapped:
                            cols.add(src_col)

                if table_name in ignore_tables and cols:
                    raise ValueError(
                        "Passthrough foreign key points to multiplied column"
                    )

                if cols != before:
                    changes = True
''')
N(S, '''        for table_key, table_meta in meta.tables.items():
            table_compact_cols = compact_columns.get(table_key, set())
            for fk in table_meta.foreign_keys:
                for col_name in fk.columns:
                    if col_name in table_compact_cols:
                        raise ValueError(
                            f"Cannot compact column {table_key[0]}.{table_key[1]}.{col_name} within foreign key"
                        )
''', '''        for table_key, cols in compact_columns.items():
            fk_cols = {
                col_name
                for fk in meta.tables[table_key].foreign_keys
                for col_name in fk.columns
            }
            for col_name in sorted(cols & fk_cols):
                raise ValueError(
                    f"Cannot compact column {table_key[0]}.{table_key[1]}.{col_name} within foreign key"
                )
''')
N(S, '''        for table_key, table_meta in meta.tables.items():
            if (
                not self.config.compact.primary_keys
                and not self.config.compact.auto_increment_keys
            ):
                break
            if len(table_meta.primary_key) != 1:
''', '''        all_keys = self.config.compact.primary_keys
        candidates = (
            meta.tables.items()
            if all_keys or self.config.compact.auto_increment_keys
            else []
        )
        for table_key, table_meta in candidates:
            if len(table_meta.primary_key) != 1:
''')
N(S, '''            table_q = query.build(meta.sql_build_context())
            if (schema, table_name) in self.compact_columns:
                subq = table_q.subquery()
                table_q = sa.select(
                    (
                        sa.func.row_number(type_=sa.Integer).over(
                            order_by=[
                                subq.c[col.name] for col in table.table_obj.primary_key
                            ],
                        )
                        + self.config.compact.start_key
                        - 1
                    ).label(SUBSETTER_COMPACT_COLUMN),
                    subq,
                )
''', '''            table_q = query.build(meta.sql_build_context())
            if (schema, table_name) in self.compact_columns:
                subq = table_q.subquery()
                compact_id = self._compact_id(subq, table)
                table_q = sa.select(compact_id.label(SUBSETTER_COMPACT_COLUMN), subq)
''', S, '''    def _copy_results(
''', '''    def _compact_id(self, subq, table):
        position = sa.func.row_number(type_=sa.Integer).over(
            order_by=[subq.c[col.name] for col in table.table_obj.primary_key],
        )
        return position + (self.config.compact.start_key - 1)

    def _copy_results(
''')
N(S, '''            remote_compact_cols = {}
            for fk in src_table.foreign_keys:
                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                    if dst_col in self.compact_columns.get(
                        (fk.dst_schema, fk.dst_table), set()
                    ):
                        remote_compact_cols[src_col] = fk
''', '''            remote_compact_cols = {
                src_col: fk
                for fk in src_table.foreign_keys
                for src_col, dst_col in zip(fk.columns, fk.dst_columns)
                if dst_col
                in self.compact_columns.get((fk.dst_schema, fk.dst_table), set())
            }
''')
N(S, '''            dep_graph[parse_table_name(table)] = set(counter.keys())

            # For calculating max ref count also need to count joins needed at sampling time
            # to facilitate compaction.
            for fk in meta.tables[parse_table_name(table)].foreign_keys:
                key = (fk.dst_schema, fk.dst_table)
                compact_cols = self.compact_columns.get(key, set())
                if any(col in compact_cols for col in fk.dst_columns):
                    counter[key] = counter.get(key, 0) + 1

            for key, count in counter.items():
                max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
''', '''            table_key = parse_table_name(table)
            dep_graph[table_key] = set(counter)

            # For calculating max ref count also need to count joins needed at sampling time
            # to facilitate compaction.
            for fk in meta.tables[table_key].foreign_keys:
                key = (fk.dst_schema, fk.dst_table)
                if self.compact_columns.get(key, set()).isdisjoint(fk.dst_columns):
                    continue
                counter.setdefault(key, 0)
                counter[key] += 1

            for key, count in counter.items():
                if count > max_ref_counts.get(key, 0):
                    max_ref_counts[key] = count
''')
N(S, '''        joined_columns = collections.defaultdict(set)
        for data in pydantic_search(plan):
            if not isinstance(data, SQLLeftJoin):
                continue
            table_id = data.right
            if not table_id.sampled:
                continue
            joined_columns[(table_id.table_schema, table_id.table_name)].add(
                tuple(data.right_columns)
            )
''', '''        joined_columns = collections.defaultdict(set)
        joins = (data for data in pydantic_search(plan) if isinstance(data, SQLLeftJoin))
        for join in joins:
            if join.right.sampled:
                key = (join.right.table_schema, join.right.table_name)
                joined_columns[key].add(tuple(join.right_columns))
''')
N(S, '''            if meta.supports_temp_reopen:
                continue

            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            for index in range(1, ref_count):
''', '''            # Create additional copies of the temporary table if needed. This is
            # to work around an issue on mysql with reopening temporary tables.
            copies = 1 if meta.supports_temp_reopen else ref_count
            for index in range(1, copies):
''')
N(S, '''            build_ctx = meta.sql_build_context()
            if (schema, table_name, 0) in meta.temp_tables:
                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
            else:
                query_stmt = query.build(build_ctx)
''', '''            build_ctx = meta.sql_build_context()
            temp_table = meta.temp_tables.get((schema, table_name, 0))
            query_stmt = (
                query.build(build_ctx) if temp_table is None else temp_table.select()
            )
''')
# --- command line
N(MA, '''    def _dict_merge(lhs, rhs):
        if isinstance(lhs, dict) and isinstance(rhs, dict):
            result = dict(lhs)
            for key, val in rhs.items():
                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs
''', '''    def _dict_merge(lhs, rhs):
        if not (isinstance(lhs, dict) and isinstance(rhs, dict)):
            return rhs
        merged = {
            key: _dict_merge(lhs[key], val) if key in lhs else val
            for key, val in rhs.items()
        }
        return {**lhs, **merged}
''')
N(MA, '''    plan = Planner(config.source, config.planner).plan()
    try:
        ctx = contextlib.nullcontext(sys.stdout)
        if args.plan_output:
            ctx = open(args.plan_output, "w", encoding="utf-8")
        with ctx as fplan:
            yaml.dump(
                plan.model_dump(exclude_unset=True, by_alias=True),
                stream=fplan,
                default_flow_style=False,
                width=2**20,
                sort_keys=True,
            )
    except IOError as exc:
''', '''    plan = Planner(config.source, config.planner).plan()
    text = yaml.dump(
        plan.model_dump(exclude_unset=True, by_alias=True),
        default_flow_style=False,
        width=2**20,
        sort_keys=True,
    )
    try:
        if args.plan_output:
            with open(args.plan_output, "w", encoding="utf-8") as fplan:
                fplan.write(text)
        else:
            sys.stdout.write(text)
    except IOError as exc:
''')
N(MA, '''    config = _get_config(args)
    if config.planner is None:
        LOGGER.error(
            "Config file must include a 'planner' section to run subset command"
        )
        sys.exit(1)

    plan = Planner(config.source, config.planner).plan()
    Sampler(config.source, config.sampler).sample(
        plan,
        truncate=args.truncate,
        create=args.create,
    )


def main():
''', '''    config = _get_config(args)
    if config.planner is None:
        LOGGER.error(
            "Config file must include a 'planner' section to run subset command"
        )
        sys.exit(1)

    _sample(config, Planner(config.source, config.planner).plan(), args)


def _sample(config, plan, args):
    sampler = Sampler(config.source, config.sampler)
    sampler.sample(plan, truncate=args.truncate, create=args.create)


def main():
''')
N(MA, '''            if args.action == "plan":
                _main_plan(args)
            elif args.action == "sample":
                _main_sample(args)
            elif args.action == "subset":
                _main_subset(args)
            else:
                raise RuntimeError("Unknown action")
''', '''            actions = {
                "plan": _main_plan,
                "sample": _main_sample,
                "subset": _main_subset,
            }
            if args.action not in actions:
                raise RuntimeError("Unknown action")
            actions[args.action](args)
''')
N(MA, '''    config_files = args.config
    if not config_files:
        config_files = ["subsetter.yaml"]
''', '''    config_files = args.config or ["subsetter.yaml"]
''')
N(CM, '''            col_count = len(self.src_columns)
            if not col_count:
                raise ValueError("src_columns cannot be empty")
            if len(self.dst_columns) != col_count:
                raise ValueError("src_columns and dst_columns must be the same length")
            if len(set(self.src_columns)) != col_count:
                raise ValueError("each column in src_columns must be unique")
            if len(set(self.dst_columns)) != col_count:
                raise ValueError("each column in src_columns must be unique")
            return self
''', '''            if not self.src_columns:
                raise ValueError("src_columns cannot be empty")
            if len(self.src_columns) != len(self.dst_columns):
                raise ValueError("src_columns and dst_columns must be the same length")
            for columns in (self.src_columns, self.dst_columns):
                if len(columns) != len(set(columns)):
                    raise ValueError("each column in src_columns must be unique")
            return self
''')
