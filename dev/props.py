"""The properties: (id, title, statement, over, quantifier text, why tests cannot, files, mechanism, technique)."""
P = []


def prop(id, title, statement, over, text, why, mech, technique):
    files = []
    for _, w in mech:
        f = w.split(":")[0]
        if f not in files:
            files.append(f)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique))


S, F, PL, PM, M, C, MA, CM = ("subsetter/" + x for x in ("sampler.py", "filters.py", "planner.py", "plan_model.py", "metadata.py", "common.py", "__main__.py", "config_model.py"))
VF = "interprocedural value-flow analysis over the syntax tree"

prop("C01", "The source database is only read",
     "Planning and sampling never change data or schema of the source database. Every statement sent to it is a query, or creates, indexes or fills a temporary table private to the connection.",
     ["programs", "configurations", "inputs"], "every statement on every path of planning and sampling, for every configuration, plan and dialect",
     "The tests compare destination contents and never look at the source afterwards; they run seven plans.",
     [("temporary tables for materialised samples", S + ":TempTableCreator.create"), ("queries run on the source connection", S + ":Sampler._copy_results")],
     VF + ": every SQL effect on a source connection is classified")

prop("C02", "Every written row passed every configured filter, in order",
     "Every row written to a destination database or output file is the result of applying all filters configured for its table, in the configured order, each to the result of the one before. No path writes a source row, or columns it no longer has, around the filters.",
     ["inputs", "configurations"], "every row of every table, every list of filters, multiplicity on and off, both kinds of output",
     "The tests run filters in isolation with mocks and sample without filters, so no sampled row of a test is ever filtered.",
     [("chain of filters", F + ":FilterViewChain"), ("database rows", S + ":DatabaseOutput.output_result_set"), ("file rows", S + ":DirectoryOutput.output_result_set")],
     VF + ": taint from result rows to writes, with the filter chain as sanitiser")

prop("C03", "Replacement filters do not leak the original value",
     "The value a built-in replacement filter (null, constant, random, uuid or fake data) writes does not depend on any original value of the row, and the zero filter uses no more than its type, whether it is null and its time zone. Random replacements come from a generator that is not seeded with a fixed value.",
     ["inputs", "configurations"], "every original value and row, for each of the built-in replacement filters",
     "Tests check one sampled output per filter with a mocked generator; dependence on other inputs cannot be observed from examples.",
     [("replacement of the named columns", F + ":FilterColumns.filter_view"), ("the individual filters", F + ":filter_values")],
     "information-flow (non-interference) analysis over the syntax tree")

prop("C04", "Filters change exactly the columns they name",
     "A filter writes only to the columns named in its configuration, located by name among the columns it is given, and leaves every other value and the column order as it was; omitting removes exactly the named columns from both names and values. Naming an unknown column, naming a column twice or naming none is rejected (omit ignores columns that are not there).",
     ["inputs", "configurations"], "every table layout, filter configuration and row",
     "Unit tests use three or four columns in one order.",
     [("lookup of columns by name", F + ":_validate_and_index"), ("omission", F + ":FilterOmit"), ("write back", F + ":FilterColumns.filter_view")],
     VF + ": provenance of row indexes in each filter")

prop("C37", "Multiplex applies the first matching condition only",
     "A multiplex filter tests its conditions in the configured order against the named column's original value, applies the filter of the first condition that matches and no other, and leaves the row alone if none does. Each operator compares as documented, an unknown column is rejected, and so is a nested filter that adds or removes columns.",
     ["inputs", "configurations"], "every row value, list of conditions and operator",
     "The tests cover a few operators on a few values.",
     [("condition operators", F + ":MultiplexCondition.match"), ("selection of the filter", F + ":FilterMultiplex.filter_view")],
     VF + ": decision table of each operator, loop-exit analysis")

prop("C36", "Each filter produces the documented kind of value",
     "Random integers and floats are drawn from the configured inclusive range, random strings have the configured length and alphabet, constants are matched to their columns by position, uuid values are textual random uuids and every fake-data filter uses the generator of its name, from the set of values without repetition when asked to. Zero maps strings to empty, numbers to zero, dates to the epoch and keeps null.",
     ["inputs", "configurations"], "every filter, with every parameter value",
     "Tests mock the generator, so that a generator that does not exist or a bound that is off passes.",
     [("the filters", F + ":filter_values"), ("fake data", F + ":_simple_faker_class")],
     VF + ": generator calls and their arguments; generator names resolved against the installed Faker sources")

prop("C05", "Passwords and row data are not shown in messages or plans",
     "No message, exception or plan made by the tool contains a database password from configuration or environment; connection URLs are shown with it masked, and errors in configuration do not repeat the input. The tool's own messages never contain values of sampled rows, and SQL is echoed only when a configuration asks for it or the tool runs with -vvv.",
     ["inputs", "configurations", "fault_sequences"], "every log call, exception and output of every command, with every configuration",
     "No test looks at log output.",
     [("connection url", C + ":database_url"), ("log calls", S + ":LOGGER"), ("errors in configuration", MA + ":_get_config"), ("plan output", MA + ":_main_plan")],
     "taint analysis from credentials and rows to message and file sinks")

prop("C06", "Requested transport security reaches the driver unweakened",
     "When TLS is required, the arguments given to the database driver for that dialect demand it, with exactly the certificate and host-name verification configured, and with the configured certificates and key; a dialect that cannot do it is refused. Configuration takes precedence over environment and nothing is sent when TLS is not required.",
     ["configurations"], "every combination of dialect, require, verify level, certificates and environment",
     "No test connects with TLS.",
     [("driver arguments", C + ":DatabaseConfig.SSLConfig.get_connect_args"), ("engine creation", C + ":DatabaseConfig.database_engine")],
     "decision table extracted by abstract evaluation per dialect and verify level")

prop("C07", "Destination data is only destroyed on request",
     "Existing destination rows are deleted only when truncation was requested, tables are created only when creation was requested and only where missing, and nothing is ever dropped or altered. With truncation every table about to be sampled is emptied, without a row condition, before the first row is written.",
     ["configurations", "histories"], "every configuration, with any prior content of the destination",
     "Tests always start from empty destination databases that they create.",
     [("truncation", S + ":DatabaseOutput.truncate"), ("creation", S + ":DatabaseOutput.create"), ("phases", S + ":Sampler.sample")],
     VF + ": guards and order of destructive effects")

prop("C08", "A rejected configuration leaves the destination untouched",
     "Errors that can be found from configuration, plan and schemas (unknown or invalid filter columns, bad multiplicity or compaction settings, ambiguous table renaming, missing destination tables) are raised before the first statement that changes the destination.",
     ["configurations", "fault_sequences"], "every invalid configuration",
     "No test checks the state of the destination after a rejected run.",
     [("validation", S + ":Sampler.sample"), ("remap check", S + ":DatabaseOutput.__init__")],
     VF + ": happens-before between checks and destination effects")

prop("C09", "Tables are written parents first and emptied children first",
     "Rows are inserted into destination tables in an order where every referenced table comes before the tables that refer to it, and truncation runs in the opposite order, both computed from the foreign keys of the destination after missing tables were created, including unplanned destination tables that refer to the sampled ones.",
     ["configurations", "inputs"], "every foreign-key graph of the destination",
     "Tests use seven schemas; an order that happens to be right for them passes.",
     [("dependency order", M + ":DatabaseMetadata.toposort"), ("graph", M + ":DatabaseMetadata.as_graph"), ("insert order", S + ":DatabaseOutput.insert_order")],
     VF + ": provenance and direction of the loop that emits each statement")

prop("C10", "Conflicting rows are treated as configured on every dialect",
     "On every dialect the strategy error lets the database report the conflict, skip keeps the existing row and replace overwrites exactly the non-key columns that were sampled; a strategy a dialect cannot express is an error. Tables without a primary key use error, replace without non-key columns acts like skip, and passthrough tables use skip in merge mode while other tables keep the configured strategy.",
     ["configurations", "inputs"], "every strategy on every dialect, for every table shape",
     "Tests only use the default strategy apart from merging passthrough tables.",
     [("statement per dialect", S + ":ConflictInsert"), ("choice of strategy", S + ":DatabaseOutput.output_result_set")],
     "abstract evaluation of each registered compiler per strategy")

prop("C11", "Generated keys never collide with sampled ones",
     "After writing a table with generated keys on a dialect that does not do so itself, the generator is advanced to at least the largest key written, after filters, multiplication and merging, once all rows are in. It is never moved backwards, an empty table leaves it alone, and it is addressed by the properly quoted table name.",
     ["inputs", "histories"], "every sampled row order and prior generator position",
     "Tests never insert into the destination after sampling.",
     [("sequence update", S + ":_autoincrement_update"), ("largest key", S + ":DatabaseOutput.output_result_set")],
     VF + ": provenance of the value and order of effects")

prop("C12", "Every sampled row is written exactly once per copy and committed",
     "Every row a table's query returns is written exactly once for each copy asked for, however many rows there are: each row that is buffered is written once and committed, and none is left behind at the end. In directory output each row is one JSON object on its own line of the file of its table.",
     ["inputs", "configurations"], "every number of rows, around and far beyond the buffer size",
     "Test tables have far fewer rows than the buffer holds, so only the final flush runs.",
     [("buffering", S + ":DatabaseOutput.output_result_set"), ("file output", S + ":DirectoryOutput.output_result_set")],
     VF + ": buffer protocol (append, flush, clear) on every path")

prop("C13", "Multiplied copies stay consistent and never collide",
     "With multiplicity each copy i of a row maps every multiplied column from v to v * multiplier + i and keeps null, and rows are copied exactly multiplier times. The multiplied columns are the primary-key columns (unless excluded), the configured extra columns and, closed under foreign keys, every column that refers to a multiplied one; passthrough and ignored tables are copied once and a reference from them to a multiplied column, or a multiplied column that is not integral, is an error.",
     ["configurations", "inputs"], "every schema, multiplier, row and set of exceptions",
     "No test uses multiplicity.",
     [("value mapping", S + ":_multiply_column"), ("choice of columns", S + ":Sampler._get_multiplied_columns")],
     VF + ": algebraic normal form of the mapping, fixpoint structure")

prop("C14", "Merging shifts keys and references by the same amount",
     "In merge mode every sampled non-passthrough table with a single integral key has that key shifted past the largest existing key, and every single-column reference to it is shifted by exactly the same amount, null references staying null; a key that is itself such a reference shifts with the key it refers to. Offsets are taken before the first row is written. Passthrough tables and anything outside merge mode are not shifted.",
     ["configurations", "histories", "inputs"], "every existing content, schema and plan",
     "Tests merge into one kind of existing data, with matching table names.",
     [("offsets", S + ":DatabaseOutput.prepare"), ("shift", S + ":DatabaseOutput.output_result_set")],
     VF + ": comparison of the terms of key offset and reference offset")

prop("C15", "Compaction renumbers keys and all references alike",
     "A compacted column is numbered consecutively from the configured start in primary-key order, and every column of a sampled table that refers to it by a foreign key gets the number of the row it refers to, with rows whose reference is null kept and no row repeated. Passthrough tables are never compacted, a compacted column inside a foreign key is refused, and automatic compaction covers single-column integral keys only, limited to generated ones if only those were asked for.",
     ["configurations", "inputs"], "every schema, plan and compaction setting",
     "The tests enable compaction for one data set with single-column keys.",
     [("columns", S + ":Sampler._get_compact_columns"), ("numbering", S + ":Sampler._materialize_tables"), ("references", S + ":Sampler._copy_results")],
     VF + ": structure of the generated query")

prop("C16", "A sample that others refer to is taken once",
     "Every table whose sample is referred to by other queries or by compacted references is sampled once, in dependency order, before anything is copied, and all uses including its own output read that one sample, so that random selection cannot differ between uses. Statements on it run on the one connection that owns it.",
     ["configurations", "inputs"], "every plan, with random selection in any table",
     "Tests use deterministic selection, for which sampling twice gives the same rows.",
     [("materialisation", S + ":Sampler._materialize_tables"), ("order", S + ":Sampler._materialization_order"), ("reads", S + ":Sampler._copy_results")],
     VF + ": provenance of sampled-table references and connections")

prop("C17", "Planned queries respect foreign keys in one direction",
     "Tables are planned in the order computed from all their keys starting at every target, each joined only to the samples of tables already planned: to all planned tables it refers to, where every join must match, or else to all that refer to it, where any match suffices. Both column lists of a key stay paired in order, and every applicable key takes part, including inferred and added ones but not ignored ones. Passthrough tables do not count as planned.",
     ["configurations", "inputs"], "every foreign-key graph and target choice the planner accepts",
     "The tests compare seven recorded plans.",
     [("per-table plan", PL + ":Planner._plan_table"), ("order", PL + ":Planner._solve_order")],
     VF + ": construction of the plan's joins")

prop("C18", "Targets and table constraints select what was asked",
     "A target is restricted by all of its percentage, amount, SQL, like and in options together, where the option for everything overrides all others but not the table constraints. Table constraints restrict a table whether it is a target or reached through keys, and are refused where planned tables refer to the table. Rows that planned tables refer to are selected besides a target's own.",
     ["configurations"], "every combination of target options and constraints",
     "Recorded plans cover a few single options.",
     [("target constraints", PL + ":Planner._plan_table")],
     VF + ": contributions to the selection condition with their guards")

prop("C19", "A plan's query means what it says",
     "Every element of a plan compiles to the SQL operation it names, on the column it names: each comparison operator to itself, membership and its negation, and and or with their neutral results when empty, inner and outer joins on all column pairs, limits to a random choice of that many rows, and unions without duplicates. A join that could repeat rows never duplicates rows in the sample.",
     ["programs", "inputs"], "every plan document",
     "Sampling tests execute only the shapes in seven recorded plans.",
     [("compilation", PM + ":build")],
     "abstract evaluation of each plan node to a SQL term, compared with its specification")

prop("C20", "Simplifying a plan keeps its meaning",
     "Simplification of conditions and statements never changes which rows are selected: within and/or only neutral parts are dropped, only an absorbing part replaces the whole, and only parts of the same kind are flattened; every field of a statement is kept, parts of a union are dropped only if their condition is false, and a union is turned into a single selection with the alternatives of its conditions only when all parts select the same columns of the same table without limits or joins.",
     ["programs", "inputs"], "every condition tree and statement",
     "No test simplifies anything but what seven plans contain.",
     [("simplification", PM + ":simplify")],
     "abstract evaluation of each rewrite, algebraic side conditions")

prop("C21", "The same input gives the same plan",
     "The plan depends only on configuration and schema: no choice, order or name in it depends on the iteration order of unordered collections, on randomness, time or process state.",
     ["schedules", "inputs"], "every hash seed and run",
     "Tests run each plan once per dialect in one process.",
     [("sorted keys", PL + ":Planner._plan_table"), ("passthrough order", PL + ":Planner._plan_internal")],
     "order-taint analysis from unordered collections to the plan")

prop("C22", "Configuration data is never executed as code or spliced into SQL",
     "Values and names from configuration and plan reach SQL as bound values or quoted identifiers, never spliced into statement text, apart from the options documented to hold SQL, the session statements and the escaped paths of attached databases. Documents are loaded without the ability to construct objects, and only the plugin filter imports code by name.",
     ["inputs", "configurations"], "every configuration and plan value",
     "Tests contain no quotes or statement fragments in values.",
     [("statement text", PM + ":SQLWhereClauseSQL.build"), ("attach", C + ":DatabaseConfig.database_engine"), ("loading", MA + ":_get_config")],
     "taint analysis to SQL-text, import and deserialisation sinks")

prop("C23", "No configuration option is silently ignored",
     "Every option of the source, planner, sampler, output and filter sections takes part in the work its section configures: a statement, condition, name, written value or result is computed from it, so it is never merely validated, overwritten or logged. Apart from connection settings, planner and sampler sections refuse options they do not have.",
     ["configurations"], "every option of every configuration section",
     "Most options do not appear in any test.",
     [("options", CM + ":SubsetterConfig"), ("connection options", C + ":DatabaseConfig.database_engine")],
     VF + ": liveness of configuration fields")

prop("C25", "Environment variables fill in missing connection settings only",
     "Each connection setting not given in the configuration is taken from the environment variable of its name with the prefix of its side (source or destination), then from its documented default, and a configured value always wins. Source and destination never read each other's variables.",
     ["configurations"], "every combination of configured and environment settings",
     "Tests always configure every setting.",
     [("connection url", C + ":database_url"), ("prefixes", S + ":Sampler.__init__")],
     VF + ": normal form of each connection parameter")

prop("C26", "Failures are reported and end with a non-zero status",
     "Any error while reading configuration or plan, planning, sampling or writing the plan ends the command with a non-zero exit status and a logged message in which all values are filled in; no handler swallows an error and lets the command report success.",
     ["fault_sequences"], "every raised error on every path of the three commands",
     "No test runs the command line.",
     [("command line", MA + ":main"), ("handlers", MA + ":_get_config")],
     "exception-flow analysis over handlers; message-argument matching")

prop("C27", "Session statements and attached databases apply to every connection",
     "Every new connection, including reconnections of the pool, has the configured databases attached and all session statements executed in order before use, in a way that a later rollback does not undo. The configured isolation level, or the documented default of the dialect, is used.",
     ["histories", "configurations"], "every connection opened during a run",
     "Tests open few connections and use no session statements.",
     [("connect listener", C + ":DatabaseConfig.database_engine")],
     VF + ": effects of the connect hook and arguments of engine creation")

prop("C28", "Renamed tables never mix up or merge",
     "Renaming rules are applied in order to the full table name; two tables renamed to the same destination are refused. Destination objects are looked up only under renamed names, and source objects, filters and plan entries only under original names.",
     ["configurations"], "every renaming rule set",
     "Tests use one simple rename, which keeps table names apart.",
     [("renaming", S + ":DatabaseOutput._remap_table"), ("collision", S + ":DatabaseOutput.__init__")],
     "name-space (unit) inference over table-name values")

prop("C29", "Inferred foreign keys are unambiguous",
     "A key is inferred only from a column whose name is the single-column primary key of exactly one other table within the chosen scope (same schema, or all), never to the table itself, and never twice; nothing is inferred unless asked for.",
     ["configurations", "inputs"], "every schema and inference mode",
     "One data set uses inference.",
     [("inference", M + ":DatabaseMetadata.infer_missing_foreign_keys")],
     VF + ": guards of the inferred key")

prop("C30", "Passthrough, ignored tables and ignored keys are honoured",
     "Passthrough tables that exist are planned whole under their own name, listed as passthrough and, like ignored tables, take no part in the ordering. A key from a passthrough table to any other table is refused, and so is one from a selected to an ignored table while dependencies are included, and a target that is not to be planned. All keys ignored between two tables are dropped, and added keys are used exactly if their tables and columns exist, before keys are checked, ordered or followed.",
     ["configurations", "inputs"], "every schema and configuration",
     "Recorded plans contain few of these options.",
     [("checks", PL + ":Planner._check_passthrough_tables"), ("keys", PL + ":Planner._remove_ignore_fks")],
     VF + ": guards and order of planning steps")

prop("C31", "Created tables reproduce the source's structure",
     "A table created in the destination has all source columns with type, nullability and primary-key membership, its unique, check and foreign-key constraints among sampled tables translated to the renamed tables, and its indexes with their uniqueness and condition. An index that cannot be made again is left out, never narrowed, and existing tables are not touched.",
     ["inputs", "configurations"], "every source schema",
     "Tests create a few tables and compare only rows.",
     [("creation", S + ":DatabaseOutput.create")],
     VF + ": copied attributes of each created object")

prop("C32", "Later configuration files override earlier ones key by key",
     "With several configuration files, sections are merged recursively: a key in a later file replaces the same key of an earlier one, keys only in one file are kept, and lists and scalars are replaced as a whole; a missing or malformed file is an error.",
     ["configurations", "inputs"], "every sequence of configuration documents",
     "No test loads configuration from files.",
     [("merge", MA + ":_get_config")],
     VF + ": decision table of the recursive merge")

prop("C33", "Commands act on the files and options they were given",
     "Each command does exactly its part with the configuration loaded: plan writes the complete plan to the requested file or standard output, sample reads the given plan file, subset samples the plan it just made, and truncate and create flags reach the sampler as given.",
     ["configurations"], "every command line",
     "No test runs the command line.",
     [("commands", MA + ":main")],
     VF + ": provenance of the arguments of planning, sampling and output")

prop("C34", "Temporary tables never clash with each other or with real tables",
     "Every temporary table made while sampling gets a name of its own within the run: the tool's prefix, a bounded number of ASCII letters and digits of the source table's name and, if that name was used before in the run (upper and lower case taken as the same), a separated number. A permanent table of that name is shadowed and never used in its place, and indexes on temporary tables have names of their own too.",
     ["inputs"], "every set of source table names, including equal, long, oddly spelt and non-ASCII ones",
     "Test tables have few, distinct and simple names.",
     [("names", S + ":TempTableCreator._generate_name"), ("creation", S + ":TempTableCreator.create")],
     VF + ": pieces of the generated name, the state they are read from and how it changes")

prop("C35", "Selected tables are closed under references",
     "The tables considered by planning are exactly those matching a selection or passthrough pattern and, unless disabled, every table reachable from them through foreign keys, transitively; sampling considers exactly the planned tables, and in the destination also every table that transitively refers to them.",
     ["inputs", "configurations"], "every schema graph and pattern",
     "Seven schemas, mostly selected whole.",
     [("closure", M + ":DatabaseMetadata.from_engine")],
     VF + ": worklist structure and arguments at each use")

NA = []


def na(id, title, statement, over, text, why, mech, reason):
    prop(id, title, statement, over, text, why, mech, "")
    NA.append(dict(prop=P.pop(), reason=reason))


na("C38", "The sample is referentially complete",
   "For every foreign key of a planned table, each sampled row's reference resolves to a sampled row of the referenced table.",
   ["inputs", "configurations"], "every source content, plan and constraint graph",
   "The tests compare row counts for seven data sets.",
   [("queries of tables", PL + ":Planner._plan_table"), ("order", PL + ":Planner._solve_order")],
   "The end-to-end statement quantifies over rows: it needs the semantics of the composed SQL queries, which no sound static argument over the source in reach bounds. Its steps (joins, order, union, materialised samples, insert order) are decided as C09, C16, C17, C18 and C19.")

na("C39", "The planning order satisfies every constraint it can",
   "The order computed for the tables visits every table reachable from the targets, refuses exactly the graphs that have no valid order, and places a table after those it depends on.",
   ["inputs"], "every constraint graph",
   "The solver's tests check a handful of graphs.",
   [("solver", "subsetter/solver.py:order_graph")],
   "Functional correctness of a graph algorithm over unbounded graphs needs an inductive proof of its loop invariants; value flow cannot bound it. Determinism (C21) and the use of the order (C09, C16, C17) are decided.")

na("C40", "Random samples have the configured size",
   "A target with an amount yields that many rows if there are as many, and a percentage yields about that share of rows, uniformly chosen.",
   ["inputs"], "every table and random choice",
   "Tests never sample randomly.",
   [("limit", PM + ":SQLStatementSelect.build"), ("random fraction", PM + ":SQLWhereClauseRandom.build")],
   "Statements about distributions of the database's random functions are out of reach of a static argument. That the limit and the probability reach the statement unchanged is decided as C18, C19 and C20.")

na("C41", "Unique fake values never run out unnoticed",
   "With unique values asked for, fake-data filters give every row another value, or fail if the generator cannot supply as many.",
   ["inputs"], "every number of rows and generator",
   "Tests draw a few values from a mock.",
   [("unique proxy", F + ":FakeFilterBase")],
   "Whether the values run out depends on the number of rows and the size of Faker's data at run time. That the unique interface is used when asked for is decided as C36.")
