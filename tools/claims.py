PENDING = "no check built yet"
CLAIMS = {
 "P04": ("error value-flow analysis on SSA", "Every call whose callee can fail is an obligation: its error must reach a non-nil return, a fatal sink or a named tolerated case on every path. Trusts go/ssa and the table of callees whose errors are ignorable."),
 "P05": ("error value-flow analysis on SSA", "Every error derived from another must keep it in its Unwrap chain (%w suffix, tolerated sentinels). Trusts the table of wrapping functions."),
 "P01": ("path-sensitive abstract interpretation over SSA (term traces)", "Every trace of the apply command, from symbolic arguments: an execution event requires the auto-approve literal or the answer==yes literal established after the DDL was written. Trusts the models of the standard library calls listed in evidence."),
 "P02": ("path-sensitive abstract interpretation over SSA (term traces)", "The executed statements are derived as a term over the displayed text and compared with the specified statement list; statements inside string literals containing ';\\n' are outside the model. Trusts the models of the standard library calls listed in evidence."),
 "P03": ("call-graph effect analysis and constant-query check", "Reachability of database execution and file mutation primitives over an over-approximating call graph; every query sent is evaluated to a constant SELECT/SHOW term."),
 "P06": ("comparison of function summaries (abstract interpretation over SSA) with reference definitions, case by case", "Diff of each dialect, with the table comparison as an uninterpreted function; list lengths 0-2; object names of one kind distinct within a schema. Both sides are derived by the same abstract interpreter from the current source; list lengths up to the stated bound stand for longer ones (per-element summaries). Where a summary leaves a value open the obligation is reported undecided, not violated. Trusts go/ssa, the library models and the reference definitions in sa/spec."),
 "P07": ("comparison of function summaries (abstract interpretation over SSA) with reference definitions, case by case", "DiffCreateTable of each dialect, restricted to statements about columns and the name; one column in all attributes, two columns in groups of attributes; column names distinct within a table. Both sides are derived by the same abstract interpreter from the current source; list lengths up to the stated bound stand for longer ones (per-element summaries). Where a summary leaves a value open the obligation is reported undecided, not violated. Trusts go/ssa, the library models and the reference definitions in sa/spec."),
 "P08": ("comparison of function summaries (abstract interpretation over SSA) with reference definitions, case by case", "DiffCreateTable of each dialect, restricted to statements about constraints, indexes, options and policies and their place relative to the column changes; up to two of each. Both sides are derived by the same abstract interpreter from the current source; list lengths up to the stated bound stand for longer ones (per-element summaries). Where a summary leaves a value open the obligation is reported undecided, not violated. Trusts go/ssa, the library models and the reference definitions in sa/spec."),
 "P09": ("comparison of function summaries (abstract interpretation over SSA) with reference definitions, case by case", "Every String method of the CREATE statements and of the parts they print; list lengths 0-3. Both sides are derived by the same abstract interpreter from the current source; list lengths up to the stated bound stand for longer ones (per-element summaries). Where a summary leaves a value open the obligation is reported undecided, not violated. Trusts go/ssa, the library models and the reference definitions in sa/spec."),
 "P10": ("comparison of function summaries (abstract interpretation over SSA) with reference definitions, case by case", "String of ALTER TABLE, DROP TABLE and DROP INDEX for every action type and flag combination; list lengths 0-3. Both sides are derived by the same abstract interpreter from the current source; list lengths up to the stated bound stand for longer ones (per-element summaries). Where a summary leaves a value open the obligation is reported undecided, not violated. Trusts go/ssa, the library models and the reference definitions in sa/spec."),
 "P11": ("comparison of function summaries (abstract interpretation over SSA) with reference definitions, case by case", "Every StringForDiff and GetNameForDiff method; list lengths 0-3. Both sides are derived by the same abstract interpreter from the current source; list lengths up to the stated bound stand for longer ones (per-element summaries). Where a summary leaves a value open the obligation is reported undecided, not violated. Trusts go/ssa, the library models and the reference definitions in sa/spec."),
 "P12": ("comparison of parse methods with a reference grammar over cut-point path pairs (abstract interpretation over SSA)", "Every parse method of each dialect: what each path accepts, where it stops and which tokens it reads but does not keep. Both sides are derived by the same abstract interpreter from the current source, for every token sequence (loops by induction over their rounds, no bound on length); calls of other parse methods are taken as given and decided on their own. Where a method does not line up with the reference the obligation is reported undecided, not violated. Trusts go/ssa, the lexer (decided under P16) and the reference grammar in sa/spec/*_parse.go.txt."),
 "P13": ("comparison of parse methods with a reference grammar over cut-point path pairs (abstract interpretation over SSA)", "Every parse method of each dialect: what each path accepts, rejects, returns and stores; plus the functions that turn a token into a name or expression, case by case. Both sides are derived by the same abstract interpreter from the current source, for every token sequence (loops by induction over their rounds, no bound on length); calls of other parse methods are taken as given and decided on their own. Where a method does not line up with the reference the obligation is reported undecided, not violated. Trusts go/ssa, the lexer (decided under P16) and the reference grammar in sa/spec/*_parse.go.txt."),
 "P14": ("progress (ranking) analysis of every loop and recursive call on symbolic token and character windows (abstract interpretation over SSA)", "Every loop in the functions reachable from the parse and lexer methods of each dialect: counted over something fixed, or on every path round it the text position grows past a token that is not the end (a character before the end), for every input, no bound on length. Recursive calls happen only after reading on. That the lexer returns the end token for ever at the end of the text is decided under P16. Loops of a kind the analysis does not know are reported undecided."),
 "P15": ("demand-driven nil, bounds and type-assertion analysis on path conditions (abstract interpretation over SSA)", "Every function of pkg/ddl, each analysed alone on every path: dereferences, method calls, indexes, slices, unchecked type assertions and calls of panic are obligations under the conditions of their path; what a function relies on without testing (a parameter, a part of a structure, a result) becomes an obligation of every call, construction and return. Entries of lists are non-nil because nothing puts nil into one (rule entry); slices of the lexers' text are judged by P16; calls outside the repository are not looked into; exhaustion of stack or memory is not a case of it."),
 "P16": ("comparison of lexer methods with a reference lexer over cut-point path pairs (abstract interpretation over SSA, characters by their value sets)", "Every method of each dialect's lexer and its keyword table: for every sequence of characters (loops by induction over their rounds, no bound on length) it stops where the reference stops with the same token; the token types are pairwise different. Calls of other lexer methods are taken as given and decided on their own. Where a method does not line up with the reference the obligation is reported undecided, not violated. Trusts go/ssa and the reference lexer in sa/spec/*_lex.go.txt."),
 "P17": ("path-sensitive abstract interpretation over SSA with the dialect fixed to each constant", "Every trace of Diff/Generate/Show/Apply with each dialect literal reaches only that dialect's parser, printer, catalog queries and driver. Trusts the models of the standard library calls listed in evidence."),
 "P18": ("path-sensitive abstract interpretation over SSA (option tables and configuration wiring)", "The option table of every subcommand and the loader of every configuration field are evaluated to terms and compared with the documented wiring. Trusts the cliz library's contract for option lookup."),
 "P19": ("comparison of function summaries (abstract interpretation over SSA) with reference definitions, case by case; equivalence of regular expressions by automata", "The generators of the three dialects, the extraction of annotations from a syntax tree, the walk over the files and the order of the statements; lists of 0-3 elements in groups (comments, columns, constraints, options, keys, fields, sources). The pattern of each annotation form is evaluated from the source and compared with the reference pattern as an automaton (exact); the part it captures on derived texts. The column padding (blanks) is not compared. Trusts go/parser, go/ast and the models of fmt, strings and sort."),
 "P20": ("order- and effect-dependence analysis on SSA (taint of map iteration order, hidden inputs, goroutines, address formatting, writes of package-level variables)", "Every function outside logging and test helpers: what is collected in map order must be sorted, by a key that tells all entries apart, before any other use (followed through helpers, copies and callers); no time, chance, process state or scheduling in what is computed; package-level variables are written only once or under a key that determines the value. That a comparator named as telling entries apart (position, map key) really does so is by a table; library functions are taken to be deterministic except those in the table."),
 "P21": ("abstract interpretation with reference-text equivalence (SSA summaries over uninterpreted query results)", "ShowCreateAllTables of each dialect: the rows of a query are a list named by the query's text and arguments, of any content, of 0 to 3 rows (by plans for Spanner's nested queries); the text returned equals a reference text in every case, a failing query fails the operation, and the columns of each query are exactly the fields it is read into. SQL text is compared with the reference (layout, comments and letter case aside), not interpreted: whether the database's catalogue answers it as meant is not decided."),
 "P22": ("typestate on SSA traces", "Every opened handle is released on every path out of the function that owns it. Trusts the table of opening and releasing calls."),
 "P23": ("interprocedural points-to and side-effect analysis on SSA (inclusion-based, with summaries per function)", "Every String, GoString, StringForDiff, GetNameForDiff, Diff, DiffCreateTable and Fprint: no store, in-place sort, append into a truncated or spare part of a list, copy, map write or deletion reachable from them may hit memory behind a parameter or a package-level variable. Flow-insensitive but for strong updates of local variables; library functions by a table of those that write to their arguments."),
 "P24": ("lockset analysis on SSA", "Every access to the guarded configuration state holds the lock. Trusts go/ssa."),
 "P25": ("path conditions on SSA traces (abstract interpretation)", "The entry functions of the four commands, every path: the set of argument counts left possible by the path's conditions is exactly the documented one wherever the operation runs, a file or database is opened or an argument is read; every other path ends in an error. Exact for these functions (the operations themselves are opaque). Trusts the command-line library to pass the arguments on."),
 "P26": ("order and value flow on SSA traces (abstract interpretation)", "generate's entry function, every path: calls that create, truncate or write a file come after the call that produces the DDL, only where its error is known to be nil, and write its output. Trusts the table of file-writing functions and the model of bytes.Buffer and strings.Builder."),
 "P27": ("path-sensitive error provenance on SSA traces (abstract interpretation)", "Every function outside pkg/ddl that can fail, each analysed alone on every path with its callees' failures as events: what its error is made of, and what is known of it there; plus the entry functions of diff, apply and ddlctl for the two successful failures. Refusals decided by comparing with constants or by argument count. Trusts errors.Is and %w as modelled."),
 "P28": ("effect events on SSA traces; query over all references to standard output and logger constructions", "Entry functions of diff and show with the operation inlined, every path: number, moment and content of writes to os.Stdout; every other function of the repository for references to os.Stdout or fmt.Print; every log.New for its writer. A copy of the stream obtained by other means (file descriptor 1) is not seen."),
 "P29": ("value provenance on SSA (context arguments)", "Every call site with a context argument in non-test code, through variables, captures, derived contexts and repository functions that make contexts. Does not decide whether the drivers obey the context."),
 "P30": ("path conditions on SSA traces (abstract interpretation)", "Every path of diff.Diff, with each dialect: the last access to what a source argument names (read, generate from, open) against the kinds of thing the path's conditions leave possible (file, directory, nothing), and that every path obtains both sources or has a failure; the same for the file and directory read by the Go parser. Conditions on the text of an argument say nothing about its kind; other conditions that are not understood leave the path undecided. Trusts os.Stat and its wrappers in util.go as tabled, and that reading succeeds on files only."),
}
NA = {
 "N01": "quantifies over the behaviour of real database servers applying the generated DDL (what the server stores and reports back): no static argument about this repository's source bounds it",
 "N02": "round-trip equality of print and parse for every text: an equality of computed strings over unbounded inputs; its structural necessary conditions are claimed separately as P09, P10, P11, P12 and P13",
 "N03": "depends on which statements the server had already committed when it failed and on the server's DDL semantics; not visible in the source",
}
