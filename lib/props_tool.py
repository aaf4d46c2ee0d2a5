GEN = ["internal/analysis/analysis.go", "internal/analysis/fieldmode.go", "internal/postgres/postgres.go", "internal/postgres/compatibility.go", "internal/generator/generator.go"]
DIFFTECH = "differential runtime monitor: generated code executed on a real server, calls, results and table contents against a reference composed from the declaration"
DIFFNOTE = "Held on the drawn targets (records with nested, embedded, pointer and converted fields; six generation modes) over a fixed schema of eight tables; trusts PostgreSQL 16, lib/pq and the Go compiler. The reference covers what the documentation and the maintainers' examples define."
def gen(id, title, statement, text, why, mech, observe=None, note=DIFFNOTE, technique=DIFFTECH, files=None, over=None):
    prop(id, title, statement, over or ["inputs", "histories"], text, why, files or GEN, mech, observe or ["rows in the tables after the call", "values delivered", "statements sent with their parameters"], technique, note)

gen("C20", "Generated SELECT code reads exactly the rows and values the struct describes",
    "A generated SELECT returns precisely the rows that its relation, joins, conditions, filter, order, limit and offset describe, each field holding its own column's value (whatever nesting, embedding, pointers, renaming, read options or fallbacks the record uses), and it changes nothing in the database.",
    "all record shapes, relations, joins, condition structs, order, limit and offset declarations, all stored rows and argument values",
    "The golden tests compare generated text; the generated code is never run against a database.",
    [("column list and scan destinations in step", "internal/generator: select and scan generation"), ("reading modes and fallbacks", "internal/analysis: field options")])
gen("C21", "Generated INSERT code stores the given values and resolves conflicts as declared",
    "A generated INSERT adds exactly one row per given record, each writable column holding its field's value (zero and nil as NULL or DEFAULT where declared, converters applied), other columns their database defaults; a declared conflict clause ignores or updates just the declared columns, and declared results come back in the record they belong to.",
    "all record shapes, slices of any length, conflict clauses, default, force, override and return declarations and all values",
    "Golden text only; parameter order, defaults and conflict handling are never executed.",
    [("columns, values and parameters in step", "internal/generator: insert generation"), ("conflict target", "internal/analysis and internal/postgres: on conflict")])
gen("C22", "Generated UPDATE code changes exactly the described rows and columns",
    "A generated UPDATE changes exactly the rows described by its condition struct, filter, All directive or primary key (for slices: each record's own row) and in them exactly the writable columns, to the record's values; every other row and column keeps its content.",
    "all record shapes, keys, conditions, joins, slices, default and force declarations and all values",
    "Golden text only; no test looks at what is updated.",
    [("assignment list and parameters in step", "internal/generator: update generation"), ("row selection by key", "internal/postgres: primary key lookup")])
gen("C23", "Generated DELETE code removes exactly the described rows",
    "A generated DELETE removes exactly the rows described by its condition struct, joins, filter or All directive, leaves all others alone, and returns the removed rows' values where declared.",
    "all relations, conditions, joins, return and result declarations and all values",
    "Golden text only; no test looks at what is deleted.",
    [("where clause generation", "internal/generator: delete and where generation")])
gen("C24", "A condition struct means the same predicate in every kind of statement",
    "The fields and directives of a condition struct combine into the declared predicate: AND and OR as tagged, nested structs as parentheses, each field compared by its operator, quantifier, function list, between pair or list with its own column, and column directives between columns or literals. The same struct selects the same rows for reading, changing and deleting.",
    "all condition structs (any depth, mix of fields and directives, all operators, quantifiers and functions) and all argument values including NULL-like and empty lists",
    "A few fixed structs are compared as text, without evaluating them.",
    [("where items to SQL", "internal/generator: where generation"), ("operators, quantifiers, functions", "internal/analysis: where struct analysis")])
gen("C25", "Results, errors and contexts are delivered the way the struct asks",
    "Whatever a struct asks for is what its caller gets: one record or an error when there is none, all records in order for slices and iterators (stopping at the iterator's error), counts, existence, affected-row counts, after-scan calls once per record, the context handed over to every call, database errors passed to the declared handler or returned, and limit and offset fields with their declared fallback.",
    "all result forms, handlers and contexts, on none, one and many rows and on failing statements",
    "Golden text only; the generated control flow is never run.",
    [("result loops and handlers", "internal/generator: query, exec and scan generation")])
gen("C26", "Valid declarations are accepted, and accepted declarations yield working code",
    "The tool accepts every declaration that the documented grammar allows and the catalog supports, and for everything it accepts, the generated file compiles next to its input and its SQL is accepted by the database with as many arguments as placeholders, in every mode of generation (quoted identifiers, contexts, imported records, any number of targets in a file).",
    "all declarations over the documented grammar, all record and argument types the catalog supports, all flags",
    "The existing tests generate about two hundred fixed inputs and never compile or run the output.",
    [("analysis, type check and generation", "internal/analysis, internal/postgres, internal/generator")], observe=["tool's verdict", "compiler's verdict", "server's verdict"],
    technique="generated declarations through the real tool, compiler and server under a monitor of all three verdicts")
gen("C35", "Every column type stores and reads every Go type it is paired with",
    "For each column type and each Go type the library has a converter for, or that needs none, in plain, pointer, named and NOT NULL form: the tool accepts the field, the code it generates compiles, and inserting, updating and selecting through it stores and reads exactly the value PostgreSQL itself gives that literal; NULL reads as nil or the zero value and nil stores NULL; other rows keep theirs.",
    "all 441 pairings of column and Go types in their four field forms, all their values, NULL and the zero value",
    "The tool's pairing table and the converters are tested apart from each other, the first as names, the second with fixed values; no test connects a field to a column.",
    [("pairing table", "internal/postgres/compatibility.go"), ("zero values and NULL handling", "internal/postgres/oid/types.go"), ("converter calls", "internal/generator: addConverterCallExpr"), ("converters", "pgsql/*.go")],
    observe=["stored row as the server renders it", "value read", "other rows"], note="Held on the drawn values of every pairing; PostgreSQL 16's own reading of an independently written literal is the oracle. The columns of one table differ in type only. Known finding: nullable float8 with non-pointer fields (frozen by golden tests).",
    technique="generated code for the whole pairing matrix run against PostgreSQL under a monitor comparing stored rows and read values with the server's own", files=["internal/postgres/compatibility.go", "internal/generator/generator.go", "pgsql/bitarr.go"])
gen("C29", "Invalid declarations are refused, located, and nothing is written",
    "A package holding a declaration that names what the catalog lacks, joins unfitting types, contradicts itself or breaks the documented grammar, is refused with a non-zero exit: no crash, no endless run, a message that points into the offending declaration (file and line) and names what is unknown, and no file created or changed, however many valid targets, files and packages surround it.",
    "all invalid declarations (unknown relations, columns, functions, indexes; mismatched types; conflicting or malformed fields, tags and directives), anywhere among valid ones",
    "Unit tests compare error values of single declarations inside the analyzer and type checker; none runs the tool over a package and looks at its exit, its message and the disk.",
    [("analysis errors", "internal/analysis: a.error"), ("type checker errors", "internal/postgres: c.dbError"), ("write only after everything generated", "internal/command: Run")],
    observe=["exit status and message of every run", "snapshot of the module before and after"],
    note="Held on the listed 240 kinds of invalid declaration and the drawn single-name mutations of valid targets. Columns of fields that a query neither reads nor writes are not checked by design (documented in the checker).",
    technique="runtime monitor of the command line tool over packages with one invalid declaration: exit, message and file system snapshots", files=["internal/command/command.go", "internal/analysis/analysis.go", "internal/postgres/postgres.go", "internal/postgres/errors.go"])
gen("C36", "How a type is written does not change what is generated for it",
    "Where Go offers several ways to write the same thing, a declaration keeps its meaning: aliases and defined types of records, slices, iterators, fields, handlers, filters and contexts, methods promoted from embedded types, pointer or value receivers, interfaces or concrete handlers, records local to the package or imported, all yield accepted, compiling code that behaves as the plainly written declaration does.",
    "all valid declarations in all the forms Go allows for their types",
    "The fixed inputs write their types in one way each.",
    [("type recognition", "internal/analysis: analyzer of types and methods"), ("type references in the output", "internal/generator: type names and imports")],
    observe=["tool's and compiler's verdicts", "statements, values, calls of hooks and handlers", "rows in the tables"],
    note="Held on the drawn forms; generic types and named slice or array field types (refused by design) are left out.",
    technique="metamorphic runtime monitor: disguised declarations through tool and compiler, the generated code run on a real server against the reference of the plain declaration", files=["internal/analysis/analysis.go", "internal/generator/generator.go"])
gen("C30", "A failed or interrupted run never damages a file",
    "Whatever ends a run (an invalid declaration, a lost database connection, a full disk, bad flags, a kill at any moment, a second run beside it), every output file afterwards is its old content or the complete new one, no source file is touched, a run that ends by itself leaves nothing else behind, exit status 0 means that all outputs are the new ones, and the next undisturbed run produces them.",
    "all moments and kinds of failure, all earlier contents of the output files",
    "No test runs the tool against a failing database, disk or process, or looks at the files it leaves.",
    [("outputs written by replacing", "internal/command: writeOutFile"), ("nothing written before everything is generated", "internal/command: Run"), ("inputs are not outputs", "internal/command: Run"), ("catalog query errors", "internal/postgres: loadCatalog, loadRelation")],
    observe=["every file of the module before and after", "exit status and message", "outputs of the run that follows"],
    note="Held at the drawn fault points; kills are aimed at the write phase by watching the directory. Power loss is not simulated.", over=["fault_sequences", "crash_points", "inputs"],
    technique="runtime monitor with fault injection: process kills, a connection-cutting proxy, file size limits and blocked outputs, with file system snapshots checked against undisturbed runs", files=["internal/command/command.go", "internal/config/config.go", "internal/postgres/postgres.go"])
gen("C27", "The output is a function of the declarations alone",
    "What is generated for a target depends on its own declaration, the flags and the catalog, and on nothing else: repeated runs, stale or missing outputs, the machine's processors, locale and directories, comments and blank lines, file names, the order of declarations, and whichever other targets, files and packages are processed or left out (the record's own package included) leave its method byte for byte the same.",
    "all sets of valid declarations and all layouts of them over files and packages",
    "Each golden input is generated alone, once, in one process.",
    [("one pass over packages, files and targets", "internal/command: Run"), ("caches of analyzed records and catalogs", "internal/analysis, internal/postgres"), ("imports and file assembly", "internal/generator: Write")],
    observe=["bytes of every output", "declarations of every output by target"],
    note="Held on twelve kinds of variation of the drawn modules, under four flag settings.", over=["inputs", "configurations"],
    technique="metamorphic runtime monitor of the command line tool: outputs of varied runs compared byte for byte, or method by method", files=["internal/command/command.go", "internal/analysis/analysis.go", "internal/postgres/postgres.go", "internal/generator/generator.go"])
gen("C31", "Exactly the selected inputs are processed",
    "The directory, recursion, file and pattern flags select which files are processed, as documented: a directory alone or with all below it that the go command lists, named files, files whose path matches a pattern; within them every target declaration that is named as one and not marked to be ignored gets its output, in the file that the output format names, and nothing else is generated or written.",
    "all module layouts and all combinations of the selecting flags and file-level settings",
    "The command's tests run fixed directories with one file selection each, on a handful of files.",
    [("flags to inputs", "internal/config"), ("file filters", "internal/command: Run"), ("targets in a file", "internal/search")],
    observe=["which files exist after the run", "which targets have methods in them"],
    note="Held on the drawn layouts (nested, hidden, internal and test directories; build constraints; odd file names; grouped, ignored and look-alike declarations).", over=["inputs", "configurations"],
    technique="runtime monitor of the command line tool: the outputs of drawn flags on drawn module layouts against the selection known by construction", files=["internal/command/command.go", "internal/config/config.go", "internal/search/search.go"])
gen("C32", "Every setting means the same wherever it comes from",
    "A setting takes effect alike from the command line, an explicitly named configuration file, or a .gosql file found at or above the working directory; the command line wins over the file, the file over the default; the file's position, formatting and key order do not matter, and an invalid or contradictory setting is refused with a message before anything is written.",
    "all subsets and values of the settings, from all sources",
    "Config tests read two fixed files; which source wins is tested for a few values.",
    [("flag and file precedence", "internal/config: Config.ParseFlags, ParseFile, Validate"), ("settings used by the generator", "internal/command, internal/generator")],
    observe=["outputs under each source of the same settings", "exit status and message on bad settings"],
    note="Held on the drawn combinations of settings.", over=["configurations"],
    technique="metamorphic runtime monitor of the command line tool: outputs of the same settings from different sources compared, bad settings watched for refusal", files=["internal/config/config.go", "internal/command/command.go"])
gen("C28", "Filter types expose exactly the filterable columns of their record",
    "A generated filter type hands its constructor the column map and the text search column of its record: each field that has a column and is not excluded appears under the key that the tag, base and separator settings (or its fck tag) give it, naming its own column, with nullability and conversion function in the second version; it has one method per such field, named after it and taking its type, that passes operator and value on with the right column; And and Or nest the same filter.",
    "all record types the catalog supports, all key settings, tags and converters, all constructor types, any number of filters in a file, used by any number of goroutines",
    "Nine fixed inputs are compared as text; the output is never compiled or used.",
    [("filter generation", "internal/generator: buildFilterCode"), ("column keys", "internal/analysis: parseFilterColumnKey"), ("filter fields", "internal/postgres: typeCheckFieldFilter"), ("converters", "internal/config: FilterValueConverters")],
    observe=["method sets and types by reflection", "calls received by recording constructors", "clauses of the package's own constructor on the server"],
    note="Held on the drawn records, settings and constructors; converters for pointer types are unspecified and left out.", over=["inputs", "configurations", "schedules"],
    technique="runtime monitor of generated filter types: recording constructors, reflection, server-executed clauses and the race detector on the shared column maps", files=["internal/generator/generator.go", "internal/analysis/analysis.go", "internal/postgres/postgres.go", "filter/filter.go"])
gen("C33", "Whatever the input, the tool ends with a refusal or with working code",
    "For any declaration that is given to it, well formed or not, and any command line and configuration file, the tool ends within bounded time and memory, without a panic, in one of two ways: it refuses with exit status 1 or 2 and a message (for a declaration one that names its file and line) and writes nothing; or it accepts, and then the written code compiles, calling it does not panic, every statement that it sends is one that the server accepts, with as many arguments as parameters and as many destinations as result columns, and no UPDATE or DELETE without conditions comes from a declaration without gosql.All.",
    "all inputs of the tool: sources, tags, types, command lines, configuration files",
    "The error tests hold one input per error code; nothing explores inputs between the valid ones and those, and accepted inputs are not compiled nor run.",
    [("analysis of arbitrary declarations", "internal/analysis: Run"), ("type checker", "internal/postgres: Check"), ("generator", "internal/generator: Write"), ("settings", "internal/config: Config.ParseFlags, ParseFile, Validate")],
    observe=["exit status, message and files of every run", "compiler diagnostics on accepted inputs", "statements received by a connection that has the server prepare them", "panics of generated code"],
    note="Held on the drawn damaged declarations and invocations. Sources that are not valid Go only have to be answered; the text of coalesce options is the user's SQL and not judged.", over=["inputs", "programs"],
    technique="runtime monitor of the command line tool under mutated declarations and invocations, with compiler, reflective caller and database server as oracles", files=["internal/analysis/analysis.go", "internal/postgres/postgres.go", "internal/generator/generator.go", "internal/config/config.go"])
gen("C34", "Generated code reads and writes the relation that the database defines",
    "Whatever relations the database holds (tables, partitioned tables, parents and children, views, materialized views, in any schema of the search path, with dropped, added, generated and identity columns, with names in any case or like keywords, and with keys and indexes of any kind), a declaration is accepted if and only if what it names is there and fit for its use, and the code then selects, inserts, resolves conflicts on, updates by key, joins and deletes just as literal statements naming the same relation, columns, keys and indexes do. Loading the catalog changes nothing in the database.",
    "all catalogs and all declarations over them",
    "The tests use one fixed schema with plain names and never run what is generated for it.",
    [("relations, columns, keys, indexes as loaded", "internal/postgres: loadRelation"), ("conflict targets", "internal/postgres: typeCheckQueryOnConflictStruct, parseIndexExpr"), ("names in statements", "internal/generator: makeRelIdent, makeColRef")],
    observe=["tool's verdict on each declaration", "contents of all tables after each call, against those after the literal statement", "records read", "catalog and sequences before and after runs of the tool"],
    note="Held on the drawn catalogs (13 column types, up to 9 columns, up to 7 relations each). Not drawn: foreign tables, exclusion constraints, domains and composite types as column types, triggers and rules.",
    technique="differential runtime monitor over drawn database schemas: the tool's verdict and the effects of its code on a real server against literal statements composed from the drawn schema", files=["internal/postgres/postgres.go", "internal/generator/generator.go"])
