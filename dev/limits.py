LIMITS = {
"C01": "Calls into SQLAlchemy and drivers are taken at their documented meaning. A raw `sql` query in a plan is text of the user's and is taken to be a query.",
"C02": "A filter from the `plugin` option is the user's code: that it is applied is decided, what it does is not.",
"C03": "Built-in filters only. What Faker and the random module return is taken to be independent of the row.",
"C04": "Plugins are excluded. Rows are taken to have as many values as the columns they are described by, which SQLAlchemy guarantees for results.",
"C05": "Texts of errors raised by database drivers can repeat parameters of a statement; only messages the tool itself composes are decided. Running with -vvv is a request for the statements.",
"C06": "What the three drivers do with the arguments is taken from their documentation.",
"C07": "Rows that a database itself deletes (ON DELETE CASCADE) follow from the schema and are not modelled.",
"C08": "Only errors that configuration, plan and schemas decide. What is found while rows are written, for example a violated constraint, is not.",
"C09": "Cycles of references have no order and are excluded; the solver's toposort is covered for determinism (C21) and by the repository's own tests, not proved.",
"C10": "What ON CONFLICT, REPLACE and ON DUPLICATE KEY do is taken from the documentation of the databases.",
"C11": "Keys generated by the database while sampling runs elsewhere are not modelled. Sequences that are not owned by a column are out of scope, as in the code.",
"C12": "A crash of the destination inside one commit is the database's to undo.",
"C13": "Arithmetic is on unbounded integers: keys that exceed the column's type after multiplication fail in the database.",
"C14": "References to unique columns that are not the key are not shifted, as in the code.",
"C15": "The numbering order of a table without a primary key is not specified. Raw `sql` queries cannot be compacted, as in the code.",
"C16": "On mysql a temporary table cannot be opened twice; that copies are made is decided, that their number suffices only for references the planner makes.",
"C17": "That the joins of all tables together give a consistent sample is a theorem about the whole algorithm; here each step is compared with its specification.",
"C18": "What a percentage selects is random; only the probability asked for is decided.",
"C19": "SQL semantics of the databases, including three-valued logic, are taken as given and the term that is built is compared with what the element names.",
"C20": "Conditions are compared by algebraic side conditions, not by evaluating SQL; a simplification of a new kind is left undecided.",
"C21": "The order in which databases list tables and keys is an input. Iteration orders of dicts follow insertion.",
"C22": "Quoting is taken to be right where SQLAlchemy or the driver does it.",
"C23": "That an option takes part is decided; that it does what it should is the matter of the other properties.",
"C25": "How a driver uses the address is not analysed.",
"C26": "Signals and the interpreter's own failures (out of memory) are out of reach.",
"C27": "What a session statement does is the user's.",
"C28": "Units are inferred from where names come from; a text built from other texts in a way the engine cannot follow is undecided.",
"C29": "The schema as reflected is the input.",
"C30": "The schema as reflected is the input.",
"C31": "Options of constraints that the code does not carry over (ON DELETE, server defaults, sort order of indexes) are listed below as known omissions of the tool, not claimed.",
"C32": "Documents are trees of sections, lists and scalars as YAML gives them; the recursive step is decided by induction.",
"C33": "What planning and sampling do is the matter of the other properties.",
"C34": "That a prefix and number are never typed by somebody else on the same connection is assumed; other connections have their own temporary tables.",
"C35": "Matching of patterns is fnmatch's.",
"C36": "Distributions are not analysed beyond the generator and its arguments. The known finding is listed under Findings.",
"C37": "Comparison of values of different types follows Python.",
}
