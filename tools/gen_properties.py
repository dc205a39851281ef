#!/usr/bin/env python3
"""Writes ../properties.jsonl. Edit the list here, then run this script."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Scanning a query returns every row, in order, or an error",
  "A query scanned through the helpers yields a nil error only if the database delivered its complete result, and then the returned list holds exactly one entry per row, in the database's order, each filled with that row's values. "
  "If the query fails to start, fails or is cancelled part-way through iteration, or a row cannot be converted, the call returns an error that wraps the cause and no rows. "
  "A partial result is never reported as success.",
  ["fault_sequences", "crash_points", "schedules"],
  "every result shape, every point of the iteration at which the driver, the connection, the context or the conversion can fail, and every interleaving of clients",
  "No test ever opens a database: every Scan example is guarded by `if db != nil` with a nil db, so not one row, let alone one mid-iteration failure, is exercised.",
  ["util/scan.go"],
  [("Scan iterates with rows.Next and checks the iteration error before returning", "util/scan.go Scan"),
   ("ScanBuilder hands the built query to Scan", "util/scan.go ScanBuilder")],
  observe=["util.Scan", "util.ScanBuilder"])

p("C02", "Each row lands in its own destinations; surplus columns disturb nothing",
  "Scanning a row assigns its leading columns, in order, to the destinations given and silently discards every further column whatever its type or NULLness, and reports an error if there are more destinations than columns. "
  "Nothing else is written: no other row's destinations, no other client's, and no element of the caller's slices outside the destinations passed, including spare capacity of the slice that was passed. "
  "This holds row after row, however many clients scan at once and wherever an earlier row or client failed.",
  ["schedules", "fault_sequences", "inputs"],
  "every number of columns and destinations, every column value including NULL, every sequence of rows, every interleaving of scanning clients, every failure before or after the row",
  "No test scans a row. Aliasing through spare slice capacity and cross-client interference need particular slices, row histories and interleavings.",
  ["util/scan.go"],
  [("ScanRow pads the destinations with discarding scanners up to the column count", "util/scan.go ScanRow, blackhole")],
  observe=["util.ScanRow", "util.Scan"])

p("C03", "The query helpers never strand a database connection",
  "When a scan or count helper returns, or unwinds because a caller-supplied callback panicked, no result set it opened is still open and its connection is back with the pool or discarded. "
  "This holds on success and on failure or cancellation at any point, so once faults stop, a pool of even a single connection serves the next call.",
  ["fault_sequences", "crash_points", "schedules"],
  "every failure point of query, iteration, conversion, callback (error, panic) and cancellation, every pool size and every interleaving of clients sharing the pool",
  "No test opens a connection. A leak only shows as a later call that blocks for ever, after a particular failure.",
  ["util/scan.go"],
  [("deferred rows.Close in Scan", "util/scan.go Scan"), ("QueryRow(...).Scan closes the row set in Count", "util/scan.go Count")],
  observe=["sql.DB.Stats", "the driver's open result sets"])

p("C04", "Counting returns the database's count, or an error that wraps its cause",
  "Counting runs the given query, wrapped as a counted sub-query with its arguments unchanged, and returns the number the database reports, or zero with no error when the database returns no row. "
  "Any failure of the database, at whatever point, or any value it returns that is not a count, comes back as an ordinary error that wraps the cause, with a zero count. "
  "No arguments, however unprintable (nil pointers, failing converters, more or fewer than the query has placeholders), turn a failure into a panic or hide its cause.",
  ["fault_sequences", "inputs", "schedules"],
  "every failure point of the count query combined with every argument list, and every interleaving of clients",
  "Count's examples run with a nil db. The failure path, which renders the query with its arguments for the message, is never executed by a test.",
  ["util/scan.go", "util/interpolate.go"],
  [("Count wraps the driver error with %w and adds the interpolated query", "util/scan.go Count"),
   ("Interpolate must fail softly", "util/interpolate.go Interpolate, encodeValue")],
  observe=["util.Count", "util.CountBuilder"])

p("C05", "What was built is what the database executes, exactly once",
  "A helper that takes a builder builds it in the requested bind style and, if the build succeeds, submits exactly that statement with exactly those arguments in that order as one query; it never submits it a second time, however that query ends. "
  "If the build fails, the build's error is returned and the database is not contacted at all. "
  "This holds for every outcome of every other client sharing the builder, its parts or the database handle.",
  ["fault_sequences", "histories", "schedules"],
  "every builder, bind style, query outcome (success, failure at any point, driver-level connection retry) and interleaving of clients sharing builders and handle",
  "No test runs a builder against a database; repeat submission after a failure, or submission after a failed build, needs a fault to show.",
  ["util/scan.go", "build.go", "sqlb/query_builder_build.go"],
  [("ScanBuilder and CountBuilder return early on build errors and call the database once", "util/scan.go")],
  observe=["statements and arguments received by the driver"])

p("C06", "Concurrent builds from shared parts are isolated and free of data races",
  "Any number of goroutines may at the same time build statements from the same fragments, columns, tables, argument lists, global properties, function maps and finished query builders, and may construct new fragments and builders from those shared parts. "
  "Each build returns exactly what it would have returned running alone, under every interleaving and whatever failures the other builds meet, and there is no data race.",
  ["schedules", "fault_sequences"],
  "every set of goroutines, every statement-level interleaving of their builds, every failure of some of them",
  "No test starts a goroutine that builds; t.Parallel tests share nothing. Interference needs a particular interleaving.",
  ["build.go", "func.go", "func_builtin.go", "property.go", "properties.go", "fragment.go", "shortcut.go", "sqlb/query_builder_build.go", "sqlb/query_builder_join.go", "syntax/parser.go"],
  [("per-build contexts hold all mutable state", "context*.go"), ("functions are re-registered per context", "func.go addValueFuncs"),
   ("query builders are only read while building", "sqlb/query_builder_build.go")],
  state=[("property usage flag", "marks a global property as used", "property.go defaultProperty"), ("join compatibility memo", "per-context function state", "func.go funcInfo")],
  observe=["BuildQuery / BuildFragment results", "race detector"], hook="statement-level yield points, injected at build time by source overlay")

p("C07", "Building only reads: no history of builds changes a later build",
  "Building a fragment or query builder, successfully or not, as a query or inside another build, in either bind style, any number of times, changes neither it nor anything it was composed from. "
  "A later build therefore returns exactly what a freshly composed, identically configured value would return, and configuring one value (appending arguments or fragments, setting a prefix, adding it to a join) never changes another value composed from the same parts.",
  ["histories", "fault_sequences"],
  "every history of configuration calls interleaved with builds (some made to fail part-way by a failing contributor) over values sharing parts",
  "Tests build each value once; one example builds twice, without ordering under DISTINCT, failure or sharing.",
  ["fragment.go", "shortcut.go", "build.go", "sqlb/query_builder_build.go", "sqlb/query_builder_order.go", "sqlb/query_builder_join.go", "sqlb/query_builder.go"],
  [("building works on per-build contexts and local fragments", "build.go, sqlb/query_builder_build.go"), ("append never writes into a caller's slice", "fragment.go, shortcut.go")],
  observe=["results of repeated builds", "exported fields of fragments", "caller slices"])

p("C08", "A failing part fails the build with its cause; it is never left out",
  "If any fragment, column, builder or preprocessing function that a build evaluates returns an error, the build returns an error that wraps it, an empty statement and no arguments; a panic in a preprocessing function, or in anything reached through one, comes back as such an error too. "
  "A failing part is never silently omitted from the statement - whatever error it fails with, including an invalid reference inside an element of a joined list. "
  "Wrong references, argument types or call arities in a template are errors, never panics.",
  ["fault_sequences", "crash_points", "histories"],
  "every contributor and every invocation of it in the build, every kind of failure (plain error, invalid-index error, panic with error or other value, runtime error), nested at any depth",
  "The tests contain no failing contributor at all; only a mixed-style syntax error is expected to fail.",
  ["build.go", "func_exec.go", "func_builtin.go", "properties.go", "errors.go", "sqlb/query_builder_build.go"],
  [("errors wrapped with %w at each level", "build.go, sqlb/query_builder_build.go"), ("safeCall recovers panics", "func_exec.go safeCall"),
   ("#join ends only on the list function's own out-of-range report", "func_builtin.go funcJoin")],
  observe=["BuildQuery / BuildFragment results, errors.Is"])

p("C09", "Placeholders and arguments stay in exact correspondence",
  "In a successfully built statement every placeholder is bound to the very value its own fragment referenced, by position for unnumbered placeholders and by number for numbered ones, whatever fragments, joins, functions, sub-queries and custom builders contributed before it, between it and after it, and whatever partial attempts (an abandoned list item, a fragment that failed) were given up on the way. "
  "Every bound argument belongs to some placeholder of the statement, whatever its type. "
  "A template that references an argument or fragment that was not supplied, leaves a supplied one unreferenced, or mixes placeholder styles fails to build.",
  ["histories", "fault_sequences", "inputs"],
  "every composition of contributors committing arguments to one shared build context, every order of commitment, every abandoned list iteration, every argument value, both bind styles",
  "Tests pin a few small templates; none abandons a partly built list item, binds an unhashable value, or puts arguments in a select list.",
  ["context_args.go", "build.go", "func_builtin.go", "sqlb/query_builder_build.go", "syntax/parser.go"],
  [("one argument store per root context", "context_args.go"), ("clauses are built in textual order", "sqlb/query_builder_build.go buildInternal"), ("usage check after building", "context_fragment.go checkUsage")],
  state=[("argument store", "arguments committed so far, shared by all contributors", "context_args.go")],
  observe=["query text and args returned together"])

p("C10", "A query builder's statement reflects exactly its configuration so far",
  "At every point of a builder's life the built statement contains, in SQL order, exactly the CTEs that are needed (directly, or through declared dependencies), the selected columns, the main table, every join in order of first declaration, every condition, grouping, ordering, limit, offset and union configured so far, with later From, Select and same-alias joins replacing earlier ones. "
  "A join is left out only if it was declared optional, the query is DISTINCT, and nothing that is kept refers to its table, directly or through another join. "
  "An impossible configuration (no main table, nothing selected, a selection, condition, grouping or ordering that refers to a table that is not joined, an invalid order, an empty table name) is an error at every build.",
  ["histories", "fault_sequences", "schedules"],
  "every history of configuration calls with builds in between, some failing through injected faults, and builders being shared by concurrent clients",
  "Six fixed builders are tested; replaced tables, chains of optional joins, cross joins, un-aliased CTEs, ordering under DISTINCT across repeated builds are not.",
  ["sqlb/query_builder.go", "sqlb/query_builder_build.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_join.go", "sqlb/query_builder_where.go", "sqlb/query_builder_with.go", "sqlb/query_builder_order.go", "sqlb/query_builder_errors.go"],
  [("dependency collection", "sqlb/query_builder_dependecy.go"), ("clause assembly", "sqlb/query_builder_build.go buildInternal")],
  state=[("tables, tablesDict, ctes, ctesDict", "declared joins and CTEs, in order and by alias", "sqlb/query_builder.go")],
  observe=["BuildQuery / BuildFragment results after each step"])

p("C11", "Preprocessing functions are resolved by scope and registered as a unit",
  "A function call in a template resolves to the definition in the nearest enclosing context, so a derived context may add or shadow functions (built-in ones included) without affecting its parent, its siblings or builds already made from them. "
  "Registering a set of functions succeeds or fails as a whole, independently of the order in which the set happens to be iterated, and an invalid name, a non-function or an unsupported signature always fails. "
  "Arguments committed through any derived context belong to the one statement being built, arguments reach functions converted to the declared types, and the trial call made to vet a function for joining leaves no trace in the statement.",
  ["histories", "schedules", "configurations"],
  "every history of deriving contexts and building in them, every map iteration order, every function signature and call arity",
  "One test and one example derive a single context each; Go randomises map iteration, which tests cannot steer.",
  ["func.go", "func_exec.go", "contex_with.go", "context.go", "context_func.go", "context_args.go"],
  [("contextValue walks from the nearest context to the root", "contex_with.go"), ("addValueFuncs validates each entry", "func.go"), ("joinCompatibility probes on a scratch context", "func.go")],
  observe=["ContextWithFuncs, BuildFragment results, Context.Args"], hook="map iteration order, steered at build time by source overlay")

p("C12", "Debug rendering is only an observation",
  "Turning on debug mode never changes the statement, arguments or error a build returns, however the log or the argument values behave: values that cannot be rendered, converters that fail, nil pointers, a failing log output. "
  "Rendering a statement with its arguments returns it with each placeholder replaced by the literal of the argument it is bound to and everything else verbatim, or an error that wraps the cause; it never panics, and it never modifies its inputs.",
  ["fault_sequences", "histories", "inputs"],
  "every built statement and argument list, every failure of a value's conversion, every placeholder without an argument, every log output failure",
  "One example interpolates two well-behaved values; debug mode is not exercised at all.",
  ["util/interpolate.go", "sqlb/query_builder_build.go"],
  [("Interpolate returns errors", "util/interpolate.go"), ("debug output only logs", "sqlb/query_builder_build.go buildInternal")],
  observe=["util.Interpolate", "BuildQuery with Debug on and off", "log output"])

p("C13", "Every build and parse finishes in bounded work without crashing",
  "Parsing or building returns, with a result or an error, after an amount of work bounded by the size of its input, for every template - including one cut off or corrupted at any byte - and for every graph of tables, joins and CTE dependencies, cyclic ones included. "
  "It never panics and never loops, and joining a list stops as soon as the list function reports the end or any failure.",
  ["crash_points", "fault_sequences", "inputs"],
  "every template with end-of-input or a corrupted byte at every position, every dependency graph, every failure position in a joined list",
  "Tests contain a handful of complete templates and one truncated one; a hang or a crash needs a particular cut.",
  ["syntax/lexer.go", "syntax/scanner.go", "syntax/parser.go", "func_builtin.go", "sqlb/query_builder_dependecy.go"],
  [("scanner states advance or end", "syntax/scanner.go"), ("visited marks in dependency collection", "sqlb/query_builder_dependecy.go")],
  observe=["step counter of the simulator, outcome of syntax.Parse and BuildQuery"], hook="statement counter, injected at build time by source overlay")

# properties with no schedule, clock, fault or history in them
p("C14", "Template parsing is lossless and positions are right",
  "Every character of a template outside references and calls appears verbatim in the parsed plain text, in order, quoted text is never interpreted, and each parsed expression reports the line and column where it starts.",
  ["inputs"], "every template string",
  "Tests parse about fifteen templates; the quantifier is over all strings.",
  ["syntax/lexer.go", "syntax/scanner.go", "syntax/parser.go", "syntax/pos.go"],
  [("scanner emits source slices", "syntax/scanner.go emitToken")], observe=["syntax.Parse"])
p("C15", "Rendered literals are well formed for every value type",
  "The literal rendered for a value of any supported type denotes that value: strings and stringers are quoted with embedded quotes doubled, numbers and booleans are printed in SQL form, times in the requested layout at microsecond precision.",
  ["inputs"], "every value of every supported type",
  "One example renders one string and one time.",
  ["util/interpolate.go"], [("encodeValue", "util/interpolate.go")], observe=["util.Interpolate"])
p("C16", "Flattening expands exactly one level, in order",
  "Flattening a list of values and slices returns the values and the first-level elements of every slice, array or pointer to one, in order, with their types unchanged.",
  ["inputs"], "every list of values",
  "Seven cases are tested.",
  ["util/args.go"], [("argsFrom", "util/args.go")], observe=["util.ArgsFlatted"])
p("C17", "Column and table names are composed as written",
  "A column of a table is written with the table's alias, or its name if it has none, as prefix; anonymous columns are written bare; expression columns are written as their fragment.",
  ["inputs"], "every table, alias and column name",
  "A few names are tested.",
  ["sqlb/table.go", "sqlb/table_aliased.go", "sqlb/table_column.go"], [("preBuildColumn, AppliedName", "sqlb/table.go")], observe=["Column.BuildFragment"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
