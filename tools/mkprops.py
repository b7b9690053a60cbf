"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

C, S = "syncanysql/compiler.py", "syncanysql"
p("C01", "Scripts run every statement exactly once, in order, unaltered",
  "A script of semicolon-separated statements is executed as exactly the statements written, each once, in the order written, with its text unaltered and attributed to the line it starts on. Semicolons, quotes and comment markers inside string literals, quoted identifiers or comments never split, drop, merge or alter a statement, and empty statements and comments (line `--`, `#`, block) never produce one. The same script behaves identically when given as text, as a .sql file, or run through an EXECUTE statement.",
  ["inputs", "programs"], "All scripts built from statements, comments in all three forms, string literals with any quoting/escaping, blank statements and any line layout.",
  "The example scripts use a handful of fixed layouts with no quote characters in comments and no semicolons in strings; nothing inspects the split itself or its line numbers.",
  [f"{S}/parser.py", f"{S}/executor.py", f"{S}/taskers/execute.py", f"{S}/__init__.py"],
  [("SqlParser.split/skip_escape/read_util", f"{S}/parser.py"), ("Executor.run", f"{S}/executor.py"), ("ExecuteTasker", f"{S}/taskers/execute.py")],
  ["list of split segments and line numbers", "order of rows inserted by the executed statements"])

p("C02", "Literals keep their exact value wherever they are written",
  "A literal written in a query (quoted string of any characters including escaped quotes, backslash escapes, semicolons, comment markers, unicode; integer; decimal; TRUE/FALSE/NULL) denotes exactly that value of exactly that type, whether it is selected, passed to a function or operator, compared in WHERE, HAVING or CASE, put in an IN list, or inserted into a table. Two different literals never become the same value and no literal is executed or interpreted as anything other than data.",
  ["inputs"], "All literal texts of the supported kinds in every syntactic position that accepts a literal.",
  "Example scripts use short alphanumeric strings and small numbers; the value space and the positions in which each compile path re-encodes a literal are unbounded.",
  [C, f"{S}/executor.py", f"{S}/parser.py"],
  [("parse_const, compile_const, compile_table literals", C), ("compile_variable textual substitution", f"{S}/executor.py")],
  ["rows produced by the query"])

p("C03", "Variables: set, read, substitute, assign with the right value and scope",
  "A variable set by SET, by SELECT ... INTO, by an assignment expression or through the host API is read back, as @name (also where @name stands for a table) and as ${name}, with the value last assigned, by every later statement executed in the same session (constant SETs of one script take effect when the script is compiled); ${name:default} uses the default (evaluating a function-call default) only when the variable is unset. A variable set inside a child scope (a nested script or context) is visible only there and shadows but never changes the parent's, a global one is visible everywhere, and referencing a variable never changes it.",
  ["inputs", "histories"], "All histories of set / select-into / := / host-API assignments and reads over nested sessions, with values of every scalar type, lists and row objects.",
  "Tests read two or three fixed variables from the environment once; histories of assignments and scopes are never varied.",
  [f"{S}/executor.py", f"{S}/taskers/set.py", f"{S}/taskers/into.py", f"{S}/calculaters/env_variable_calculater.py", f"{S}/__init__.py"],
  [("EnvVariables lookup chain, Executor.compile_variable", f"{S}/executor.py"), ("SetCommandTasker", f"{S}/taskers/set.py"), ("IntoTasker", f"{S}/taskers/into.py"), ("env_variable get/set calculaters", f"{S}/calculaters/env_variable_calculater.py")],
  ["get_variable results", "rows selecting the variables"])

p("C04", "WHERE returns exactly the rows whose predicate is true",
  "A query with a WHERE clause returns exactly the source rows for which the predicate evaluates to true under SQL logic over comparisons, IN, BETWEEN, LIKE, IS NULL, NOT, AND, OR and arithmetic, each row once and unchanged. The result does not depend on how the predicate is written: operand order, parenthesisation, operand commutation and logically equivalent rewritings select the same rows, as does moving a condition between the part the engine pushes to the source and the part it evaluates itself.",
  ["inputs", "programs"], "All predicates over the supported operators and all table contents including NULLs, empty tables, duplicates and mixed-type columns.",
  "Tests run a few fixed predicates over one small data file; correctness must hold for every predicate shape and every data set, in particular where part of a conjunction is pushed down and part is not.",
  [C, f"{S}/calculaters/mysql_funcs/logical_funcs.py"],
  [("compile_where_condition (push-down vs predicate evaluation)", C), ("mysql logical operators", f"{S}/calculaters/mysql_funcs/logical_funcs.py")],
  ["rows of the result"])

p("C05", "Projected expressions evaluate to their SQL value for every row",
  "Every expression in a select list (arithmetic with SQL precedence and associativity, comparisons, logic, CASE, IF, IFNULL, COALESCE, nested function calls, casts, column references in any mix) yields, for each row independently, the value SQL semantics assigns to it, with NULL propagating through operators. Output columns are exactly the selected ones under their aliases or names, and SELECT * yields all source columns; the number and order of rows are unaffected by what is projected. Wrapping any expression in jit(), once or several times in a query, changes no value.",
  ["inputs", "programs"], "All expression trees over the supported operators and functions of bounded depth, over all row values including NULL, zero, negative and string numerals.",
  "Tests evaluate single-operator expressions on constants; nested and mixed expressions over row data with NULLs are unbounded.",
  [C, f"{S}/calculaters/mysql_calculater.py", f"{S}/calculaters/mysql_funcs/logical_funcs.py"],
  [("compile_select_column/compile_calculate/compile_case/compile_if", C), ("MysqlCalculater dispatch", f"{S}/calculaters/mysql_calculater.py")],
  ["rows of the result"])

p("C06", "Joins pair exactly the matching rows and keep the preserved side",
  "A LEFT JOIN returns every left row, paired with each right row matching the whole ON condition or with NULLs when there is none; INNER JOIN returns only matched pairs; RIGHT JOIN is the mirror of LEFT JOIN; CROSS JOIN and FROM a, b give every pair of a non-empty table (of which some column is used), which WHERE then restricts. WHERE, GROUP BY, projected expressions and further joins see the joined row, columns of same-named fields are never mixed up between tables, a table may be joined several times (to itself or to others) and each alias reads its own rows, and key lookup batching never changes the result.",
  ["inputs", "programs", "configurations"], "All chains of supported joins over tables with unique, duplicate, missing and NULL keys, extra ON conditions, multi-column keys, WHERE on either side and any join batch size.",
  "Three fixed join scripts on one data set; no run with duplicate keys, extra conditions, mixed join kinds or batch sizes that split the key set.",
  [C, f"{S}/taskers/query.py"],
  [("compile_join_column, parse_on_condition, join schema building", C), ("optimize_rewrite inner/right joins", C), ("@join_batch", f"{S}/executor.py")],
  ["rows of the result"])

p("C07", "GROUP BY yields one exact row per group; HAVING filters groups",
  "A grouped query returns exactly one row per distinct value of the grouping expressions, with COUNT, COUNT(DISTINCT), SUM, AVG, MIN, MAX, GROUP_CONCAT, array, JSON and bit aggregates computed over exactly that group's rows with NULLs ignored as in SQL (SUM and AVG of no values being 0), including when aggregates are nested in expressions. HAVING keeps exactly the groups whose predicate over the result columns is true, and the result does not depend on the order of the input rows.",
  ["inputs", "programs"], "All grouping keys, aggregate combinations, HAVING predicates and table contents including NULL keys, NULL values, single-row groups and permuted input.",
  "Tests check fixed aggregate scripts over fixed data; group structure, NULL placement and combinations of several aggregates in one query are unbounded.",
  [C, f"{S}/calculaters/aggregate_calculater.py", f"{S}/taskers/query.py"],
  [("compile_aggregate/compile_group_column/compile_having_condition", C), ("aggregate calculaters", f"{S}/calculaters/aggregate_calculater.py"), ("distinct reduction", f"{S}/taskers/query.py")],
  ["rows of the result"])

p("C08", "DISTINCT and UNION combine rows without loss, duplication or mixing",
  "SELECT DISTINCT returns each distinct result row exactly once; UNION ALL returns the rows of all its branches with their multiplicity, and UNION their distinct rows. Each branch behaves as if queried alone (its own filters, grouping, joins, limits), and values stay in the column they were selected into.",
  ["inputs", "programs"], "All branch queries with compatible columns, any number of branches, duplicate rows within and across branches, NULLs, and unions used as subqueries.",
  "Only one UNION example runs, on disjoint data; duplicate rows, NULLs and branch-local clauses are never combined.",
  [C, f"{S}/taskers/query.py"],
  [("compile_union", C), ("compile_distinct_column", C)],
  ["rows of the result"])

p("C09", "ORDER BY and LIMIT/OFFSET return exactly the right ordered slice",
  "With ORDER BY the result rows are in the requested order (several keys, ASC/DESC, columns or aliases), being a stable permutation of the unordered result; LIMIT n OFFSET m returns exactly rows m+1..m+n of that result. This holds whether or not the query also filters, joins, groups, deduplicates or uses window functions: the limit counts result rows, never source rows.",
  ["inputs", "programs"], "All key lists and directions, ties, NULL keys, all limit/offset pairs including zero and beyond the end, in combination with WHERE, JOIN, GROUP BY, HAVING, DISTINCT, UNION and subqueries.",
  "Tests use single ORDER BY ... LIMIT shapes on one data set; whether the limit may be pushed to the source depends on the combination of clauses.",
  [C, f"{S}/taskers/query.py"],
  [("compile_order/limit handling in compile_select", C), ("@limit argument", f"{S}/taskers/query.py")],
  ["rows and order of the result"])

p("C10", "Subqueries and CTEs compose: nesting equals querying a stored result",
  "A query over a subquery or CTE returns the same as running the inner query into a table and querying that table, at any nesting depth and with any clauses at either level; scalar, IN and EXISTS subqueries, correlated by equality or not correlated, behave as if evaluated for each outer row. Reusing a subquery alias or CTE name in another statement or nesting level never mixes their rows.",
  ["programs", "inputs", "histories"], "All nestings of supported queries in FROM, WITH, JOIN, scalar, IN and EXISTS positions, over all tables, repeated in one session.",
  "One subquery example with fixed data; composition depth, clause combinations and repeated names over a session are unbounded.",
  [C, f"{S}/taskers/query.py", f"{S}/calculaters/query_tasker_calculater.py"],
  [("compile_subquery/compile_with/compile_query_condition", C), ("dependency taskers and temporary memory", f"{S}/taskers/query.py"), ("QueryTaskerCalculater", f"{S}/calculaters/query_tasker_calculater.py")],
  ["rows of the result", "rows of an equivalent two-step evaluation"])

p("C11", "Window functions compute over their partition and order",
  "A window expression yields for each row the function's value over exactly the rows of its partition in the window's order: row_number, rank, dense_rank, percent_rank, cume_dist, ntile, lag, lead, first_value, last_value, nth_value and aggregate functions over partitions: without ORDER BY over the whole partition, with ORDER BY running totals that accumulate row by row in window order (rows that tie in source order); first_value, last_value and nth_value look at the whole partition. Every source row appears exactly once in the result, and partitions never influence each other.",
  ["inputs", "programs"], "All partition and order keys (including ties, NULLs, descending), all function arguments, and all table contents and orders.",
  "One fixed script covers window functions on a data set without ties; partition structure, ties and argument values are never varied.",
  [C, f"{S}/calculaters/window_calculater.py", f"{S}/calculaters/aggregate_calculater.py"],
  [("compile_window_aggregate", C), ("window calculaters", f"{S}/calculaters/window_calculater.py")],
  ["rows of the result"])

p("C12", "Batch size never changes a result",
  "Executing a query or insert in batches of any size gives the same result as executing it in one pass: filters, joins, grouping, every aggregate, DISTINCT, HAVING, ORDER BY, LIMIT, UNION and subqueries return the same rows. In particular merging partial aggregates is equivalent to aggregating all rows at once, for any split of the rows, including empty and NULL-only parts.",
  ["configurations", "inputs", "programs"], "All batch sizes from 1 to beyond the table size, all supported queries and aggregates, and all ways the rows fall into batches.",
  "One example runs one aggregate script with one batch size over one file; the split points and the merge operations of each aggregate are otherwise unexercised.",
  [f"{S}/taskers/query.py", f"{S}/calculaters/aggregate_calculater.py", C],
  [("ReduceHooker and run_reduce", f"{S}/taskers/query.py"), ("aggregate/reduce/final_value of each aggregate", f"{S}/calculaters/aggregate_calculater.py")],
  ["rows of the result with and without batching"])

p("C13", "INSERT modes and DELETE change the target exactly as specified",
  "INSERT INTO ... SELECT/VALUES leaves in the target exactly the rows its mode defines (the mode is given as `table<MODE>` or by @use_output_type, the key is the first inserted column, a column list names the columns by position): append (I), update-or-insert by key (UI), insert new, update existing and delete missing (UDI), replace all (DI), update only (U), with rows not concerned and columns not listed left unchanged. In UDI and DI the WHERE conditions that a plain SELECT puts on the key limit the target rows concerned to the same keys. DELETE removes exactly the rows matching its condition (an AND of comparisons of a column with =, <>, <, <=, >, >= or IN; other conditions are refused), and over any sequence of such statements and reads, in batches or not, the table equals the model of applied operations.",
  ["histories", "inputs"], "All sequences of inserts in every mode, deletes and reads over a set of tables with arbitrary key overlap, types and batch settings.",
  "Each mode is tested by one statement on one file; sequences, key overlaps, empty inputs and interaction with reads are not.",
  [C, f"{S}/taskers/query.py", f"{S}/taskers/delete.py"],
  [("compile_insert_into, compile_delete", C), ("DeleteTasker", f"{S}/taskers/delete.py")],
  ["contents of the target table after each statement"])

p("C14", "Results do not depend on where the data is stored",
  "The same rows written to and read back from each supported local storage (memory, CSV, JSON, text lines, spreadsheet) keep their values to the extent the format can represent them, with every row exactly once, and a query over the same rows gives the same answer from every storage after declaring column types. The name of a table decides path, format, sheet and reading parameters, whatever other files the statement uses and however it is read in batches. Writing a file never disturbs other files, and reading never changes the file read.",
  ["inputs", "configurations", "histories"], "All tables with strings of any characters (quotes, separators, newlines, unicode), numbers, NULLs, and all supported local formats for source and target.",
  "Tests read a few clean data files and write few; special characters, round trips, and identical queries across formats are not compared.",
  [C, f"{S}/config.py", f"{S}/taskers/query.py"],
  [("compile_table (path/driver resolution)", C), ("default database configuration", f"{S}/config.py")],
  ["bytes and parsed contents of files", "rows of the result"])

p("C15", "Sessions, contexts and threads do not interfere",
  "Engines and contexts used side by side, interleaved or from several threads see only their own variables, settings and imports (children also their parents'), and each statement executes in the context that issued it; every statement submitted executes exactly once. Tables shared by contexts of one engine contain exactly the rows inserted, regardless of how the calls are interleaved.",
  ["schedules", "histories"], "All interleavings of execute, variable and memory-table calls over several engines, nested contexts and threads.",
  "Tests use one engine and one thread; thread-local current-executor handling and configuration copies only matter under interleaving.",
  [f"{S}/__init__.py", f"{S}/executor.py", f"{S}/config.py", f"{S}/taskers/query.py"],
  [("ExecuterContext/ScriptEngine", f"{S}/__init__.py"), ("thread-local current executor, EnvVariables parents", f"{S}/executor.py"), ("SessionConfig", f"{S}/config.py")],
  ["variables and table contents per context", "rows returned in each thread"])

p("C16", "Failures leave no residue and finished statements leave no temporaries",
  "When a statement fails (unparsable, uncompilable, unknown source, or an error while running) the error reaches the caller, nothing of the failed script runs later, statements completed before it keep their effects, and the session stays usable with unchanged variables and settings. After any statement, successful or not, the session holds no temporary tables of it: repeating the statement any number of times gives the same answer each time and bounded memory.",
  ["histories", "fault_sequences"], "All histories interleaving good statements with statements failing at every stage (compile, load, calculate, output), with subqueries, unions, CTEs, SELECT INTO, batches and aggregates.",
  "Tests run only successful scripts once; nothing inspects the session after a failure or the temporary tables after success.",
  [f"{S}/executor.py", f"{S}/taskers/query.py", f"{S}/taskers/into.py", f"{S}/__init__.py"],
  [("runner queue", f"{S}/executor.py"), ("QueryTaskerTemporaryMemoryManager, check_free_temporary_memory_collection", f"{S}/taskers/query.py")],
  ["exceptions raised", "tables held in the memory database", "results of later statements"],
  [("runners", "statements compiled but not yet executed", f"{S}/executor.py")])

p("C17", "Numeric functions return their mathematical value",
  "Each numeric function and operator provided (abs, sign, mod, ceil/ceiling, floor, round, sqrt, exp, ln, log with optional base, pow/power, the trigonometric functions, pi, greatest/least, bin/oct/hex, arithmetic and the bit operators and functions with MySQL's precedence) returns for every argument in its domain the mathematically defined value, NULL for a NULL argument or outside its domain, and never fails the query; bin/oct/hex show 64-bit two's complement, bit operators work on signed integers.",
  ["inputs"], "All argument values: integers, negative, zero, large, decimals, numeric strings, NULL.",
  "Tests evaluate each function on one or two constants.",
  [f"{S}/calculaters/mysql_funcs/number_funcs.py", f"{S}/calculaters/mysql_calculater.py"],
  [("mysql number functions", f"{S}/calculaters/mysql_funcs/number_funcs.py")],
  ["value selected"])

p("C18", "String functions return exactly MySQL's result for any text",
  "Each string function provided (concat, concat_ws, substring, substring_index, left, right, trim, replace, repeat, reverse, insert, upper/lower, length, bit_length, char_length, ascii, ord, char, field, find_in_set, elt, strcmp, startswith/endswith/contains, hex/unhex, base64, crc32, inet and is_ip functions) returns for all arguments the value MySQL's function of that name defines, counting characters not bytes where MySQL does, NULL for NULL, and obeys its inverse and decomposition laws.",
  ["inputs"], "All strings including empty, unicode, separators, repeated patterns, and all positions and lengths including zero, negative and out of range, and NULL.",
  "Tests evaluate each function on one or two constants; boundary positions and unicode are not varied.",
  [f"{S}/calculaters/mysql_funcs/string_funcs.py"],
  [("mysql string functions", f"{S}/calculaters/mysql_funcs/string_funcs.py")],
  ["value selected"])

p("C19", "Date and time functions follow the calendar",
  "Each date/time function provided (date_add/date_sub and INTERVAL arithmetic in a single unit, addtime/subtime, datediff, timestampdiff, year, month, monthname, dayof*, weekday, week, yearweek, date, microsecond, date_format/time_format with strftime directives, unix_timestamp/from_unixtime in the configured time zone, time_to_sec/sec_to_time) returns the calendar-correct value for every valid date and amount, across month ends, leap years and year boundaries, and inverse functions invert each other. NULL or invalid arguments give NULL and never fail the query.",
  ["inputs"], "All dates and datetimes, all interval units and amounts of either sign, and NULL.",
  "Tests evaluate most functions at fixed instants or only that they run; month-end, leap-year and December boundaries are not varied.",
  [f"{S}/calculaters/mysql_funcs/datetime_funcs.py", C],
  [("mysql datetime functions, add_months", f"{S}/calculaters/mysql_funcs/datetime_funcs.py"), ("interval compilation", C)],
  ["value selected"])

p("C20", "JSON and regular-expression functions act on the addressed parts only",
  "JSON functions (extract and ->, set, remove, array_append, contains, contains_path, keys, length, depth, valid, array, object) read and write exactly the element addressed by a path: a value set, appended or removed is seen as such by extraction while all other parts of the document, and the stored value it came from, are unchanged; a path that leads nowhere reads as NULL and changes nothing; constructors, length, depth, keys, contains and contains_path agree with the document's structure. Regular-expression operators and functions (REGEXP/RLIKE, regexp_like, regexp_instr, regexp_substr, regexp_replace) match anywhere in the subject and find, extract and replace exactly the matches that position, occurrence and match-type arguments select.",
  ["inputs"], "All JSON documents (nested objects, arrays, scalars, unicode), all paths present and absent, and all subjects, patterns, positions and occurrences.",
  "Tests call each function on one or two fixed documents.",
  [f"{S}/calculaters/mysql_funcs/json_funcs.py", f"{S}/calculaters/mysql_funcs/regexp_funcs.py"],
  [("mysql json functions", f"{S}/calculaters/mysql_funcs/json_funcs.py"), ("mysql regexp functions", f"{S}/calculaters/mysql_funcs/regexp_funcs.py")],
  ["value selected"])

p("C21", "Configuration layers merge predictably and never leak upward",
  "The effective setting of every key is the one given by the innermost layer that sets it (session set, parent session, caller's config, working-directory and home config files and their extends, defaults): named entries (arguments, imports, variables, databases and the like) are merged by name, the lists of states, executes and pipelines accumulate, other values override. Setting or unsetting a key in a session affects later statements of it and its children only, unless declared global, and never changes a parent, a sibling or the caller's config object. Modules in the directories of pypackage_paths can be imported.",
  ["configurations", "histories"], "All layered configurations over files, caller dictionaries and session SET/unset histories at any nesting.",
  "Only two example configs are loaded; override order, unset and isolation over histories are not tested.",
  [f"{S}/config.py", f"{S}/taskers/set.py"],
  [("GlobalConfig.load/merge_config/set, SessionConfig.get", f"{S}/config.py"), ("SetCommandTasker.set_config", f"{S}/taskers/set.py")],
  ["effective configuration returned for each session", "behaviour of statements that depend on it"])

p("C22", "The command line runs a script fully and reports the outcome",
  "Running the command with a script file or with a script on standard input executes all its statements in order, with command-line parameters available as variables, and exits 0. A script is compiled as a whole before its first statement runs, so a script that does not compile performs nothing; if a statement fails, a terminating signal stops the run, or the file cannot be read, it exits non-zero after having performed exactly the statements completed before (a run stopped by a terminating signal or an interrupt exits 130; a file of a kind other than .sql, .sqlx or .prql given on a terminal is refused; with a script on standard input it is ignored, never executed). The outcome equals executing the same script through the embedding API.",
  ["inputs", "programs", "fault_sequences"], "All scripts, parameters, input modes (file, pipe) and failure positions.",
  "No test starts the command; exit codes, parameters and partial execution are untested.",
  [f"{S}/main.py", f"{S}/executor.py", f"{S}/parser.py"],
  [("main", f"{S}/main.py"), ("EnvVariables.build_global argument parsing", f"{S}/executor.py")],
  ["exit status, files written and rows printed by the process"])

p("C23", "User functions are applied once per row or group with its own arguments",
  "A Python function or class imported into a session and called in a query receives, for each row, exactly the argument values of that row and its return value is the expression's value; a generator in the select list of a query without grouping or DISTINCT expands to one row per item with the other columns repeated; custom aggregate and window functions see each row of their group or partition exactly once in order. Names resolve to the session's own imports, and built-in functions are not shadowed or altered.",
  ["inputs", "programs", "histories"], "All user-defined scalar, generator, aggregate and window functions, in select, where, having and nested positions, over all row data.",
  "Example functions run on a few rows and only final values are checked; call counts, arguments, ordering and positions are not observed.",
  [C, f"{S}/calculaters/__init__.py", f"{S}/calculaters/generate_calculater.py", f"{S}/calculaters/aggregate_calculater.py", f"{S}/calculaters/window_calculater.py", f"{S}/taskers/use.py"],
  [("import calculaters", f"{S}/calculaters/__init__.py"), ("UseCommandTasker", f"{S}/taskers/use.py"), ("generate/aggregate/window custom classes", f"{S}/calculaters")],
  ["log of calls received by the user functions", "rows of the result"])

p("C24", "Type annotations and casts convert exactly, element by element",
  "A column with a type annotation (`` `a[int]` ``), a CAST/CONVERT or a convert_<type> function holds in the result, in conditions, joins, grouping, HAVING, ordering, aggregates, DISTINCT, CASE, windows, subqueries, arithmetic and function arguments the value converted to that type (integer, float, string, boolean, decimal, date, datetime, time, bytes, uuid, array, set, map); lists are converted element by element; values already of that type are unchanged; a NULL or unconvertible value becomes the type's zero or empty value (NULL for date, datetime and time); converting twice equals converting once; several types of one annotation apply in order. The conversion of one column never affects another, nor the stored data. This holds for in-memory tables and files; on a table of an SQL database it holds for CAST, CONVERT and convert functions everywhere and for annotations in results (a condition on an annotated column is evaluated by the database).",
  ["inputs", "programs"], "All supported annotations and cast targets, values in every textual or native form, in every clause.",
  "Tests convert a few clean values in the select list.",
  [C, f"{S}/calculaters/__init__.py"],
  [("compile_select typing / filters, compile cast", C)],
  ["type and value of result columns"])

p("C25", "Queries never change their sources; EXPLAIN changes no answer",
  "Running any SELECT, SHOW or EXPLAIN leaves every source table, every other table, every file and every variable exactly as before (apart from the named target of an INSERT or INTO), however often it is repeated and whatever clauses it has. Rows returned to the caller are independent of the stored rows, and EXPLAINing a statement has the same effect on tables and results as running it without.",
  ["programs", "inputs", "histories"], "All supported queries (joins, aggregates, windows, unions, subqueries, sorting, distinct, user functions) over tables with scalar and nested values.",
  "Tests compare only the output of each query; no test compares the sources before and after.",
  [C, f"{S}/taskers/query.py", f"{S}/taskers/explain.py", f"{S}/taskers/show.py", f"{S}/__init__.py"],
  [("in-place value and sort handling in aggregate/window/distinct", f"{S}/taskers/query.py"), ("ExplainTasker", f"{S}/taskers/explain.py")],
  ["snapshots of all tables, files and variables before and after"])

p("C26", "Execution settings change how a query runs, never its answer",
  "Streaming mode, join batch size, insert batch size, verbosity, timeouts and the other execution settings, set by SET or through the host API, change how a statement is executed but never which rows it returns or stores, their values or their declared order. The row limit setting bounds the number of rows a SELECT returns or an INSERT ... SELECT stores (a LIMIT of the statement itself takes precedence), and restoring a setting restores the behaviour.",
  ["inputs", "configurations", "programs"], "All supported queries and inserts under all combinations of execution settings over all tables.",
  "Tests always run with the default settings; settings are never varied on the same query.",
  [f"{S}/executor.py", f"{S}/taskers/query.py", C],
  [("execution arguments", f"{S}/executor.py"), ("QueryTasker.start/run", f"{S}/taskers/query.py")],
  ["rows of the result", "contents of the target"])

p("C27", "Database-backed queries, raw SQL and virtual views return the right rows",
  "A query on a table of a configured SQL database, a raw SQL block (`/* raw(db.name) */ (...) /* endraw */`), or a virtual view with parameters (`#{name__op:default}`) returns exactly the rows that the stored data and the conditions define, the same as the same query over an in-memory copy of the table: alone, joined with tables of the same or another database or with memory tables, grouped, in subqueries and unions. Conditions, variables and view parameters reach the database as data with their exact values, a condition with a view parameter's name and operator sets the parameter and the others keep their defaults; raw and view texts reach the database as written (a raw block's own text even when another statement of the script uses the same name); inserts, keyed updates and deletes on the database leave exactly the rows the statement defines. Not covered, because the installed drivers do not support them: `in` parameters, `%s` or a backslash inside raw text, DELETE without conditions.",
  ["inputs", "programs"], "All filters, joins, orders, limits, view parameters with defaults, raw texts and insert modes over a local SQL database with arbitrary string and numeric content.",
  "No test uses a SQL database, a raw query or a virtual view.",
  [C, f"{S}/executor.py", f"{S}/config.py"],
  [("raw block extraction", f"{S}/executor.py"), ("virtual view arguments", f"{S}/config.py"), ("condition push-down", C)],
  ["rows of the result", "database contents read independently"])
p("C28", "Columns are found by the name written; a path denotes the nested value",
  "A column whose name needs quoting (any characters other than `.`, `[`, `<`, `|`, `+`, a leading `$` or `:`: spaces, keywords, punctuation, quotes, comment markers, any language, either case) behaves in every clause exactly as a column with a plain name, as a source column, an alias or the key of a join, and is stored and read back under that name. A path (`` `o.a.b` ``, `` `l.:0.k` ``, `` `l.:1:3` ``, `get_value(o, 'a', 0)`) denotes the nested value, NULL where a step is missing, and behaves in select lists, expressions, conditions, grouping, ordering, windows, joins and subqueries exactly as a plain column holding that value, for memory tables and files.",
  ["inputs", "programs"], "All supported statements, all column names, all nestings of values, missing members included.",
  "Tests use plain lower-case names, and paths only in a few select lists and examples.",
  [C, f"{S}/parser.py", f"{S}/taskers/query.py"],
  [("parse_mapping / to_sql (quoted names)", C), ("is_searched_path, get_value", C)],
  ["rows and column names of the result", "rows and column names of the target"])
p("C29", "A transform gets all rows of its subquery once; its rows are the answer",
  "A SELECT of one transform function over a subquery (transform$v4h, h4v, v2h, h2v, uniqkv, a registered TransformCalculater, an imported function with arguments) calls the transform exactly once with all rows of the subquery in their order, and its answer is exactly the rows the transform returns, in that order: at top level, over any subquery (filters, joins, groups, unions, other transforms), with LIMIT, in unions, CTEs, derived tables, join sides, IN subqueries and INSERT targets, and under every execution setting. The built-in transforms give the documented pivots. A function that gives a value per row (MySQL functions, row_index, uuid, pyeval, generators) over a subquery gives one value for each of its rows.",
  ["inputs", "programs"], "All transforms over all subqueries and contexts, any number of rows, NULL values.",
  "No test uses a transform; the examples run a few and compare a few rows.",
  [C, f"{S}/taskers/query.py"],
  [("compile_pipleline_select", C)],
  ["rows handed to the transform", "rows of the result"])

p("C30", "Recursive common table expressions reach their fixpoint exactly",
  "A recursive common table expression (WITH RECURSIVE r AS (anchor UNION [ALL] member over r)) holds exactly the rows of the SQL recursion, with UNION every row once and ending even when the data is cyclic, with UNION ALL every derivation: counters, series of several columns, walks over a table, traversals and transitive closures of graphs (the recursive table joined with other tables), under every execution setting. The statement using it (filters, aggregates, groups, joins, ordering with LIMIT, subqueries, unions, further CTEs, INSERT, SELECT INTO) sees exactly these rows. The column list of a CTE, recursive or not, or of a derived table names its columns by position.",
  ["inputs", "programs"], "All anchors, recursive members over the recursive table (alone or as the driving table of joins), graphs with cycles, outer statements and settings.",
  "No test runs a recursive query; one example counts to four.",
  [C, f"{S}/taskers/query.py"],
  [("compile_with, compile_union, parse_column_names", C), ("@loop in compile_tasker", f"{S}/taskers/query.py")],
  ["rows of the result", "contents of the target", "termination"])

p("C31", "Row-stream, time-of-run, identifier and type functions mean what they say",
  "row_index() numbers the rows the query reads (after WHERE and joins) 1, 2, 3 … without gaps or restarts under any batch setting, and row_last(x) gives the value of x in the row before, NULL for the first; each statement, UNION operand and subquery counts on its own, also when it is run again. pyeval(code, args…) gives the value of the Python expression over its arguments, NULL when the code fails, and never runs code when SYNCANY_PYEVAL_DISABLED is set. The is_* predicates tell the type of every value, the same in projections and conditions. time_window(period, time, offset) gives the start of the window a time falls into, so that grouping by it partitions the rows. now(), current_date and the like give the moment of the execution in the configured time zone; uuid(), snowflake and object ids are distinct over all rows.",
  ["inputs", "configurations"], "All row streams (tables, filters, joins, subqueries, unions), batch settings, expressions, values, periods, zones.",
  "Tests call each function on one or two rows.",
  [C, f"{S}/calculaters"],
  [("row_index, row_last", f"{S}/calculaters"), ("current_timestamp, time_window", f"{S}/calculaters"), ("pyeval", f"{S}/calculaters")],
  ["rows of the result", "clock around the execution", "files made by pyeval"])

p("C32", "An interactive session runs what is typed, once, and survives its errors",
  "In the interactive prompt a text is taken at Enter as soon as a semicolon outside quotes and comments has ended a statement and the rest is not inside quotes or a comment; until then Enter starts a new line. Every statement of the text (typed or pasted, on one line or several) runs once, in order, variables and memory tables staying for the rest of the session. A statement that fails prints 'Class: message' and the session goes on: earlier statements of the text keep their effect (none has run when the text does not compile), later ones do not run, and nothing stays queued for the next text. Ctrl-C drops the text being typed, or ends the running statement and returns to the prompt. `exit` in any letter case and Ctrl-D on an empty line end the session; nothing after runs. `!command` hands the rest to the shell, `%cd directory` changes the working directory (and @cwd) that relative files use. Every text entered is remembered in the history file of the configuration home, across sessions, except exit: in order, with its line breaks, at least the newest 50, and the up key recalls it.",
  ["inputs", "histories"], "All texts, statement mixes, failures and interruptions, session sequences and history lengths.",
  "The tests never start the prompt.",
  [f"{S}/prompt.py", f"{S}/parser.py"],
  [("CliPrompt.run, check_complete", f"{S}/prompt.py"), ("CliFileHistory", f"{S}/prompt.py"), ("SqlParser.read_util_complete", f"{S}/parser.py")],
  ["rows and files written", "errors printed", "shell commands and working directory", "history file"])

p("C33", "The Python API keeps named tables and functions with its engine's lifetime",
  "push_memory_datas adds a row or a list of rows at the end of a table, get_memory_datas returns all its rows in order, pop_memory_datas returns and removes them (an unknown or empty table gives []), through an engine, its contexts or the functions of the module, and statements see and change the same tables. What the caller does later to the objects handed over or returned changes nothing stored. Tables belong to one engine: another engine, the default engine of the module and an engine made after close() do not see them. Variables are read by name with or without @, with a default when unset; a function given with use() can be called by the engine it was given to and its contexts (by one context alone when given to it). get_database returns one object per name and raises DatabaseUnknownException for unknown names. instance() is one engine until close(); close() may be called again, a with block closes, and a closed engine holds nothing. Inside nested with blocks of contexts current_context() is the innermost one of the thread, also when a block ends with an exception.",
  ["inputs", "histories"], "All histories of API calls over engines, contexts and the module.",
  "Tests push and read a few tables on one engine.",
  [f"{S}/__init__.py"],
  [("ScriptEngine, ExecuterContext, module functions", f"{S}/__init__.py"), ("copy_rows", f"{S}/utils.py")],
  ["rows, variables and functions seen through every engine, context and the module after each call"])

p("C34", "Every clause of an accepted statement takes effect",
  "A statement is answered as it is written or refused with an error; no clause, modifier or operator is accepted and then ignored. Rows of an accepted statement are those standard SQL gives for it: JOIN ... USING compares the named columns with those of the first table, DISTINCT over window functions keeps the distinct rows of the computed values, window frames that are accepted delimit the rows computed over, repeated or mirrored conditions of a correlated subquery change nothing. What is outside the dialect is refused: NATURAL, FULL, SEMI and ANTI joins, QUALIFY, DISTINCT ON, ROLLUP, CUBE and GROUPING SETS, column positions in GROUP BY and ORDER BY, INTERSECT and EXCEPT, FILTER, separators, DISTINCT (except in COUNT) and several arguments of aggregates, other window frames, window functions over the aggregates of the same select, nested aggregates and aggregates in WHERE, NULLS FIRST/LAST that differ from NULL sorting lowest, comparisons of rows with subqueries, SORT BY, PIVOT, * EXCEPT, column names of a table alias, UPDATE, INSERT OVERWRITE or with a partition or conflict clause, DELETE with USING, LIMIT, OR or BETWEEN. The refused statement writes and deletes no row.",
  ["inputs"], "All statements and tables; the statement as top-level select, in a derived table, a common table expression, a union operand or an IN subquery.",
  "Tests execute supported forms on a few tables.",
  [f"{S}/compiler.py"],
  [("compile_select, check_select, optimize_rewrite", f"{S}/compiler.py"), ("compile_window_column, check_window", f"{S}/compiler.py"), ("compile_insert_into, compile_delete", f"{S}/compiler.py")],
  ["rows of each accepted statement, errors of the refused ones and the tables after them"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
