#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

DIAL = ["postgres", "cockroachdb", "mysql", "spanner"]
def each(fmt): return [fmt % d for d in DIAL]

p("P01", "apply never touches the database without explicit approval",
  "The apply command executes a statement on the target database only after either the auto-approve option is set or the user has typed exactly 'yes' as the answer to the prompt, and the prompt comes after the full DDL text has been shown. Any other answer, an empty answer or end of input makes apply fail with the 'canceled' error and execute nothing. When there is no difference, or when computing the difference fails, nothing is executed and no approval is asked.",
  ["inputs", "configurations", "fault_sequences"],
  "Every answer on standard input, every setting of the auto-approve option, every outcome of computing the difference and of writing the message.",
  "The apply command has no test that answers the prompt; tests reach neither the refusal paths nor the ordering of message, prompt and execution.",
  ["pkg/ddlctl/apply/ddlctl_apply.go", "pkg/internal/config/auto_approve.go"],
  [("apply command body", "pkg/ddlctl/apply/ddlctl_apply.go: Command"), ("prompt", "pkg/ddlctl/apply/ddlctl_apply.go: prompt")])
p("P02", "apply executes exactly the DDL it displayed",
  "What apply executes is the very text it displayed for approval, on the first argument's database, with the driver of the selected dialect: every non-empty statement of it, in the displayed order, nothing added (but Spanner's START BATCH DDL / RUN BATCH around all of them), nothing left out or reordered. A statement that fails is reported as a failure of apply, except MySQL's 'already exists' and 'Duplicate column name' errors, which are skipped and the following statements still executed.",
  ["inputs", "fault_sequences"],
  "Every DDL text, every dialect, every pattern of statement failures reported by the database.",
  "No test runs apply against a database; statement splitting and error tolerance only show with several statements and failing ones.",
  ["pkg/ddlctl/apply/ddlctl_apply.go", "pkg/internal/util/remove_comment.go"],
  [("statement execution", "pkg/ddlctl/apply/ddlctl_apply.go: Apply, splitExec"), ("comment removal", "pkg/internal/util/remove_comment.go")])
p("P03", "diff, show and generate are read-only",
  "The diff, show, generate and version commands never execute a statement that could modify a database: only apply reaches a database execution primitive, and every query sent while showing a schema is a constant SELECT or SHOW statement. No command writes to, truncates, renames or removes any file except generate, which opens only its destination argument (or ddlctl.gen.sql inside it when it is a directory).",
  ["inputs", "configurations"],
  "Every argument, dialect, database state and configuration.",
  "A test can only observe that one run did not modify one database; absence of any execution path needs all call paths.",
  ["pkg/ddlctl/show/ddlctl_show.go", "pkg/ddlctl/diff/ddlctl_diff.go", "pkg/ddlctl/generate/ddlctl_generate.go", "pkg/show"],
  [("read-only queries", "pkg/show/*/show_create_all_tables.go"), ("destination", "pkg/ddlctl/generate/ddlctl_generate.go: Command")])
p("P04", "No failure is swallowed",
  "Whenever an operation used by a command (reading an input, opening or querying a database, iterating rows, parsing, generating, comparing, executing, writing the result) fails, the command returns a non-nil error, so that the process exits with a failure; it never reports success with a partial or empty result. The only tolerated failures are 'no difference' (success), help requests, MySQL's 'already exists'/'Duplicate column name' on apply, and failures to release or log something.",
  ["fault_sequences", "inputs"],
  "Every operation that can fail, failing at every point where it is used.",
  "Tests inject only a few failures; each error return of each call site must be exercised with a fault to observe it.",
  ["pkg/ddlctl", "pkg/show", "pkg/internal/lang/go", "pkg/internal/generator", "pkg/ddl", "cmd/ddlctl/main.go"],
  [("error returns", "every call whose last result is an error"), ("exit status", "cmd/ddlctl/main.go: main")])
p("P05", "Reported errors keep their cause",
  "An error returned because another operation failed wraps that failure, so that callers can still recognise the cause ('no difference', 'not supported', 'canceled', an unexpected token, a driver error) however many layers it passed, in normal, trace and debug mode alike.",
  ["inputs", "fault_sequences", "configurations"],
  "Every failing operation and every layer that wraps its error.",
  "Tests compare a few error kinds; every wrapping site is an independent place to lose the cause.",
  ["pkg/ddlctl", "pkg/show", "pkg/ddl", "pkg/internal", "pkg/apperr"],
  [("wrapping", "apperr.Errorf with %w")])
p("P06", "Schema diff drops, creates and compares every table and index",
  "For any two schemas of one dialect, the diff drops every table and index that exists only before, creates every table and index that exists only after using the after definition, alters every table in both with exactly the changes of the table comparison, and drops and recreates an index in both whose definitions differ. Drops come first, then creates, then changes of common objects; common objects that do not differ yield nothing; an empty result is reported as 'no difference' and never otherwise.",
  ["inputs"],
  "All pairs of schemas, with any number of tables and indexes, in each of the four dialects.",
  "Unit tests compare a handful of schema pairs; the guarantee is about every combination of present, absent, equal and different objects.",
  each("pkg/ddl/%s/diff.go"), [("schema comparison", "pkg/ddl/<dialect>/diff.go: Diff")])
p("P07", "Table diff changes every differing column and attribute",
  "For any two versions of a table, the diff drops each column that exists only before, adds each column that exists only after with its after definition, and for a column in both changes exactly the attributes that differ (type, default, nullability and the dialect's further attributes) to the after values, leaving equal attributes alone. A differing table name yields a rename first, and every statement names the table as it is called at that point.",
  ["inputs"],
  "All pairs of versions of a table: any columns, any attribute values, in each of the four dialects.",
  "Attribute combinations multiply; tests pin single changes in otherwise equal tables.",
  each("pkg/ddl/%s/diff_create_table.go"), [("column comparison", "pkg/ddl/<dialect>/diff_create_table.go: diffCreateTableColumn")])
p("P08", "Table diff drops, adds and replaces every differing constraint and option",
  "For any two versions of a table, the diff drops each constraint or table index that exists only before, before any column is changed; drops and re-adds, with the after definition, each one in both that differs; adds, after the column changes, each one that exists only after; and changes table options and row deletion policies that differ to their after values. Constraints and options that do not differ yield no statement.",
  ["inputs"],
  "All pairs of versions of a table: any constraints, inline indexes, options and policies, in each of the four dialects.",
  "Constraint and option combinations multiply; tests pin single changes.",
  each("pkg/ddl/%s/diff_create_table.go"), [("constraint comparison", "pkg/ddl/<dialect>/diff_create_table.go: DiffCreateTable")])
p("P09", "CREATE statements render every part of the definition",
  "Printing a CREATE TABLE or CREATE INDEX statement, or any column, constraint, default, expression, identifier or option in it, yields SQL text in which every recorded part appears, in the dialect's grammatical position and in the recorded order, with identifiers in their original quoting, list items separated by commas and the statement terminated by a semicolon and newline; parts that are absent leave no trace.",
  ["inputs"],
  "Every table and index definition that can be represented, in each of the four dialects.",
  "Tests print a few definitions; every optional part and every combination is a separate case.",
  each("pkg/ddl/%s/ddl_table.go") + each("pkg/ddl/%s/ddl_table_create.go") + each("pkg/ddl/%s/ddl_index_create.go") + each("pkg/ddl/%s/ddl.go"),
  [("renderers", "String methods of the statement, column and constraint types")])
p("P10", "ALTER and DROP statements render the action they stand for",
  "Printing an ALTER TABLE, DROP TABLE or DROP INDEX statement yields exactly the SQL of its action for the named object in the dialect's syntax, with every recorded operand, terminated by a semicolon and newline. Its comment, if any, is printed before it with every non-empty line commented out, so that it can never be executed as SQL.",
  ["inputs"],
  "Every alteration or drop that can be represented, in each of the four dialects, with any comment text.",
  "Tests print a few alterations; each action and flag combination is a separate case.",
  each("pkg/ddl/%s/ddl_table_alter.go") + each("pkg/ddl/%s/ddl_table_drop.go") + each("pkg/ddl/%s/ddl_index_drop.go"),
  [("renderers", "AlterTableStmt.String, DropTableStmt.String, DropIndexStmt.String")])
p("P11", "Comparison sees every attribute and ignores quoting",
  "Two definitions of the same column, default, expression, constraint, index or option compare as equal only if all their semantic parts agree (names, column lists in order, sort direction, referenced table and columns, referential action, uniqueness, expression tokens, data type and its arguments, option values). Identifier quoting never makes them differ; the access method of an index (USING) is not compared, because catalogs always report it and definitions rarely state it.",
  ["inputs"],
  "Every pair of definitions, in each of the four dialects.",
  "A part missing from the comparison only shows in a pair that differs in nothing else.",
  each("pkg/ddl/%s/ddl_table.go") + each("pkg/ddl/%s/ddl_index_create.go") + each("pkg/ddl/%s/ddl.go"),
  [("comparison keys", "StringForDiff methods")])
p("P12", "The parser skips no token silently",
  "For any SQL text, every token the parser moves past has either been checked against what the supported grammar requires at that place, or been stored in the parsed schema; anything else makes parsing fail with an error. Parsing succeeds only when the whole text has been consumed.",
  ["inputs"],
  "Every input text, in each of the four dialects.",
  "Tests parse well-formed samples and a few malformed ones; silently dropped tokens need a text that has one at each place of the grammar.",
  each("pkg/ddl/%s/parser.go"), [("token stepping", "Parser methods")])
p("P13", "The parser accepts and records every clause of the supported grammar",
  "Every statement and clause of the supported grammar (tables, columns, types and their arguments, defaults, nullability, keys, references and their actions, checks, unique constraints and indexes, sort order, options, policies, IF NOT EXISTS, UNIQUE, USING, in any order and number the grammar allows) is accepted and ends up in the parsed schema, in the field that stands for it, with the text and name it had; no accepted clause overwrites or erases another one of the same statement.",
  ["inputs"],
  "Every accepted input text, in each of the four dialects.",
  "Tests check a few clause combinations; a lost clause needs a text in which it occurs in that position.",
  each("pkg/ddl/%s/parser.go") + each("pkg/ddl/%s/ddl_table.go"), [("clause handling", "Parser.parse* methods; NewRawIdent, NewObjectName, Expr.Append")])
p("P14", "Lexing and parsing always terminate",
  "For every input text, lexing and parsing end after a number of steps bounded by the length of the text: every loop either consumes input on each round or leaves with a result or an error, in particular at the end of the text and on unterminated quotes, parentheses or statements.",
  ["inputs"],
  "Every input text, in particular truncated ones, in each of the four dialects.",
  "Non-termination needs an input cut at the right token; tests sample few truncations.",
  each("pkg/ddl/%s/parser.go") + each("pkg/ddl/%s/lexar.go"), [("loops", "every loop of the lexers and parsers")])
p("P15", "Lexing, parsing and comparing never panic",
  "No SQL text makes lexing, parsing, printing or comparing schemas panic: not by an out-of-range access, a missing optional part, an unexpected kind of object or an uninitialised value; malformed input is reported as an error.",
  ["inputs"],
  "Every pair of input texts, in each of the four dialects.",
  "Tests feed mostly well-formed SQL; panics need specific malformed or unusual texts.",
  each("pkg/ddl/%s/parser.go") + each("pkg/ddl/%s/lexar.go") + each("pkg/ddl/%s/diff.go"), [("bounds and nil checks", "lexers, parsers, renderers, comparison")])
p("P16", "Lexers map every character and keyword to its own token",
  "Each keyword of a dialect is recognised case-insensitively as its own token and nothing else is; data type spellings that mean the same type get the same token and different types different tokens; every punctuation character, quoted literal, comment and identifier yields the token that carries its exact text, and any character that is none of these becomes an illegal token rather than being dropped.",
  ["inputs"],
  "Every input text, in each of the four dialects.",
  "Tests lex selected keywords; a table entry or character case that is wrong shows only for that spelling.",
  each("pkg/ddl/%s/lexar.go"), [("keyword table", "lookupIdent"), ("character dispatch", "Lexer.NextToken")])
p("P17", "Each dialect is handled by its own implementation throughout",
  "For each supported dialect, sources are parsed, compared and printed with that dialect's own implementation, before and after in that order, databases are shown and opened with that dialect's own queries and driver, and Go sources are generated with that dialect's own generator. An empty or unknown dialect, or an unknown language, is rejected with an error and never handled as another one.",
  ["inputs", "configurations"],
  "Every dialect and language value and every kind of argument (SQL file, Go source, DSN) on either side.",
  "Dispatch tests cover a few dialect and argument kind combinations and need live databases for others.",
  ["pkg/ddlctl/diff/ddlctl_diff.go", "pkg/ddlctl/show/ddlctl_show.go", "pkg/ddlctl/generate/ddlctl_generate.go", "pkg/ddlctl/apply/ddlctl_apply.go"],
  [("dialect dispatch", "diff.Diff, show.Show, generate.Fprint, apply.Apply")])
p("P18", "Every option takes effect where it is documented",
  "Each command line option and environment variable (language, dialect, auto-approve, column tag, DDL tag, primary key tag, trace, debug) is offered on the commands that use it, and its value, and no other option's value, reaches the behaviour it controls. Auto-approval is off unless requested, and each subcommand runs its own operation.",
  ["configurations"],
  "Every combination of options, environment variables and subcommands.",
  "Tests set a few options on a few commands; a crossed or missing wire shows only for that option on that command.",
  ["pkg/ddlctl/ddlctl.go", "pkg/internal/config", "pkg/internal/consts/cli.go"],
  [("option table", "pkg/ddlctl/ddlctl.go"), ("configuration", "pkg/internal/config/*.go")])
p("P19", "generate emits every annotated table, column, key, constraint and index",
  "From the annotations found in the Go sources (every .go file that is not a test, every comment group that carries the tag, in line or block comments), generate writes, for each dialect, one CREATE TABLE per annotated table with a column for every tagged field name, its primary key, every constraint and option, and every CREATE INDEX annotation, in source order (file, then line); what an annotation line sets (table, constraint, option, index) is decided by its keyword in singular or plural; a table without a name is called like its struct; comments are emitted only as SQL comments, items are separated by commas and statements terminated by semicolons.",
  ["inputs"],
  "Every set of annotations: any number of tables, columns, constraints, options, indexes and comments, for each dialect.",
  "Tests generate from a few fixtures; presence, order and separators depend on list lengths and empty parts.",
  ["pkg/internal/generator", "pkg/internal/generator/dialect"],
  [("generators", "Fprint, fprintCreateTable*, fprintCreateIndex of each dialect")])
p("P20", "Equal input gives identical output",
  "Generating from the same sources, and comparing the same pair of schemas, yields the same text on every run: nothing in the output depends on map iteration order, time, randomness, addresses or goroutine scheduling, nor on what an earlier run in the same process left behind.",
  ["schedules", "inputs"],
  "Every input, repeated any number of times.",
  "Order dependence shows only in some runs.",
  ["pkg/internal/lang/go/parse.go", "pkg/internal/lang/go/extract_source.go", "pkg/internal/generator", "pkg/ddl"],
  [("ordering", "sort calls after map iteration")])
p("P21", "Show output contains every object the database reports",
  "Showing a database's schema yields the definition of every table, column, constraint, index and option reported by the database's catalogue queries, in the order reported, each terminated so that it can be parsed back; every reported attribute value goes into the text in its own place. A failure while reading any row fails the whole operation.",
  ["inputs", "fault_sequences"],
  "Every result of the catalogue queries, of any length.",
  "Without live databases the tests do not reach most row handling.",
  ["pkg/show/postgres/show_create_all_tables.go", "pkg/show/mysql/show_create_all_tables.go", "pkg/show/cockroachdb/show_create_all_tables.go", "pkg/show/spanner/show_create_all_tables.go"],
  [("row to DDL", "ShowCreateAllTables of each dialect")])
p("P22", "Connections are released on every path",
  "Every database handle, database connection and row set opened by a command is closed on every path out of the operation that opened it, including every error path, and never used after it was closed.",
  ["fault_sequences"],
  "Every failing operation between opening and the end of the command.",
  "Leaks on error paths need an injected failure at each operation.",
  ["pkg/ddlctl/apply/ddlctl_apply.go", "pkg/ddlctl/show/ddlctl_show.go", "pkg/show"],
  [("deferred close", "apply.Apply, show.Show, pkg/show/*")])
p("P23", "Printing and comparing leave the schemas unchanged",
  "Printing a schema, comparing two schemas or writing generated DDL does not modify any of them: a second print or comparison of the same schemas gives the same result, and the caller's statements keep their contents and order.",
  ["histories", "inputs"],
  "Every sequence of print and compare operations on the same parsed schemas.",
  "Tests use each schema once.",
  each("pkg/ddl/%s/diff.go") + each("pkg/ddl/%s/diff_create_table.go") + each("pkg/ddl/%s/ddl_table.go"),
  [("pure comparison", "Diff, DiffCreateTable, String, StringForDiff")])
p("P24", "Configuration is accessed only under its lock",
  "The shared configuration is read only while holding its lock for reading or writing and replaced only while holding it for writing, and the lock is released on every path, so that concurrent loads, rollbacks and reads never race or deadlock.",
  ["schedules"],
  "Every interleaving of loads, rollbacks and reads.",
  "A race needs a particular schedule; tests run single-threaded.",
  ["pkg/internal/config"], [("lock", "pkg/internal/config/config.go")])
p("P25", "Each command insists on its documented arguments",
  "diff, apply and generate do their work only when given exactly two arguments, show only when given exactly one. With any other number of arguments the command reports an error: it neither crashes nor reads a source, opens a database or touches a file, nor ends as if it had succeeded.",
  ["inputs"],
  "Every list of command-line arguments.",
  "The commands have no unit tests; a test would sample a few counts.",
  ["pkg/ddlctl/diff/ddlctl_diff.go", "pkg/ddlctl/apply/ddlctl_apply.go", "pkg/ddlctl/show/ddlctl_show.go", "pkg/ddlctl/generate/ddlctl_generate.go"],
  [("argument count", "Command of diff, apply, show and generate")])
p("P26", "generate replaces its destination only with the complete DDL",
  "generate touches its destination file only after the whole DDL has been produced successfully: whenever reading the source or producing the DDL fails, the file keeps what it held. On success the file holds exactly the DDL produced, nothing of its former content.",
  ["inputs", "fault_sequences"],
  "Every source, destination and point of failure.",
  "Needs a failure after the destination was chosen, for every kind of failure.",
  ["pkg/ddlctl/generate/ddlctl_generate.go"], [("destination", "generate.Command")])
p("P27", "A command that did what was asked reports success",
  "A command reports a failure only if an operation it performed failed, or its input is one it documents as refused: another number of arguments, an unsupported dialect or language, an answer to the prompt other than 'yes'. Finding no difference is a success of diff and apply, and asking for help is a success.",
  ["inputs", "fault_sequences"],
  "Every command, configuration, input and combination of succeeding and failing operations.",
  "The commands have no tests; a needless refusal shows only for the input or outcome it singles out.",
  ["pkg/ddlctl", "pkg/show", "pkg/internal"], [("command outcomes", "error results of the functions in pkg/ddlctl, pkg/show and pkg/internal")])
p("P28", "Standard output carries only the result",
  "diff and show write to standard output exactly their SQL, once, when they succeed with a result, and nothing when they fail or find no difference. Log messages of every level go to standard error, so that the output can be redirected to a file or another program in any mode.",
  ["inputs", "configurations", "fault_sequences"],
  "Every input, mode and failure.",
  "The commands have no tests; stray output shows only in the mode or on the path that produces it.",
  ["pkg/ddlctl/diff/ddlctl_diff.go", "pkg/ddlctl/show/ddlctl_show.go", "pkg/logs/logger.go"], [("output", "diff.Command, show.Command"), ("loggers", "pkg/logs")])
p("P29", "Every operation runs under the context of its command",
  "Every database call, retry and nested operation receives the context its command was run with, or one made from it, so that canceling the command stops it wherever it is, and the options in the context reach every part.",
  ["schedules", "histories"],
  "Every call that takes a context; cancellation at any moment.",
  "Needs a cancellation in the middle of an operation, at every operation.",
  ["pkg/ddlctl", "pkg/show", "pkg/internal"], [("contexts", "calls taking a context.Context")])
p("P30", "A source argument is taken for what it names",
  "Each of the two sources given to diff is handled by what its argument names and never by how it is spelled or by what failed: one that names a file is read as SQL whatever the file is called, one that names a directory is generated from its Go sources, and only one that names nothing existing is opened as a data source name. The path or data source name used is the one given, the Go sources read are those of the file or directory it names, both sources are always obtained, even when they are the same, and a source that cannot be obtained is never taken for one of another kind.",
  ["inputs", "configurations", "fault_sequences"],
  "Every spelling and kind of argument on either side, for every dialect, and every failure to read it.",
  "The commands have no tests; a wrong guess shows only for the spelling or failure it singles out.",
  ["pkg/ddlctl/diff/ddlctl_diff.go", "pkg/ddlctl/show/ddlctl_show.go", "pkg/ddlctl/generate/ddlctl_generate.go"], [("source resolution", "diff.resolve")])
# not claimed
p("N01", "Applying the diff makes the database equal to the target schema",
  "After apply succeeds, showing the database and comparing it with the target source reports no difference.",
  ["inputs", "histories"], "All databases and target sources.",
  "Needs live databases of four vendors.",
  ["pkg/ddlctl/apply/ddlctl_apply.go", "pkg/ddlctl/diff/ddlctl_diff.go"], [("diff and apply", "pkg/ddlctl")])
p("N02", "Printing then parsing a schema gives the same schema",
  "Parsing the printed form of any parsed schema yields a schema that compares as equal to it.",
  ["inputs"], "Every accepted SQL text, in each of the four dialects.",
  "An unbounded set of texts.", each("pkg/ddl/%s/parser.go"), [("parser and renderer", "pkg/ddl")])
p("N03", "A failed apply can be repeated until it succeeds",
  "If apply stops in the middle because of a database failure, running it again after the failure is resolved completes the change.",
  ["fault_sequences", "histories"], "Every point of failure.",
  "Needs live databases.", ["pkg/ddlctl/apply/ddlctl_apply.go"], [("execution", "splitExec")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
