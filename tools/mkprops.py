#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json
V="kfparser/visitor.go"; P="kfparser/parser.go"; VAL="schema/validator.go"; S="schema/schema.go"; T="schema/types.go"
G="kfgrammar/kuneiform_parser.go"; L="kfgrammar/kuneiform_lexer.go"; C="cmd/root.go"; W="wasm/wasm.go"; EL="utils/error_listener.go"; A="utils/annotation.go"
def p(id,title,statement,over,text,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
props=[
p("C01","Table declarations compile to exactly what was declared",
 "In the schema produced for every accepted source, the tables are exactly the declared ones, in source order, with names as written. Each table carries exactly its columns in order (name, int/text/blob type, and every constraint in order with its literal character for character), its indexes (name without '#', kind, columns in order) and its foreign keys (child columns, parent table, parent columns, and each on_update/on_delete reaction). Nothing is dropped, added, merged, reordered or altered, whatever the number of declarations, the length of names or the size and content of literals.",
 ["programs"],"every valid source: any number of tables, columns, constraints, indexes and foreign keys, any legal name, any number or string literal",
 "The tests compile a few dozen small fixed sources with one or two tables; the guarantee is over all shapes, combinations and sizes of table declarations.",
 [V,S,T,G],[("visitor builds tables, columns, constraints, indexes and foreign keys",V),("JSON field layout",S),("keyword to type-name mapping",T)],["kfparser.Parse result","ToJSON output"]),
p("C02","Action declarations compile to exactly what was declared",
 "In the schema produced for every accepted source, the actions are exactly the declared ones, in source order, each with its name, parameters in order, annotations in order (text without '@' and without blanks outside literals) and the right number of statements in order. An action is public only if it says public, a view only if it says view (otherwise private and update), and owner-only exactly if it says owner, wherever those words stand. An init block becomes one last action named init that is private, update, without parameters, annotations or auxiliaries.",
 ["programs"],"every valid source: any number of actions with any legal combination and order of modifiers, annotations, parameters, and any position of init",
 "Tests cover single actions with few modifiers; whether private/owner/view survive for every combination, count and position is a statement over all programs, and a slip exposes private actions.",
 [V,S,T,G],[("visitor builds actions, modifiers, annotations and init",V)],["kfparser.Parse result"]),
p("C03","SQL statements reach the output verbatim",
 "Every SQL statement in an action or init body appears in the output character for character as written, from its first keyword through its terminating semicolon: same letter case, inner blanks and line breaks, comments, operators, numbers, quoted strings and non-ASCII text. It stands in its declared position among the body's statements and is never merged, split, normalised or truncated.",
 ["programs"],"every accepted SQL statement of any length and layout, in every position of any action or init body",
 "Tests contain a handful of one-line ASCII statements; verbatim preservation is over all texts and positions.",
 [V,L],[("SQL statement is one token, copied",V),("SQL statement token",L)],["statements in kfparser.Parse result"]),
p("C04","Call statements keep their tokens and meaning",
 "The output text of every action or extension call in an accepted source reads back as exactly the receivers, callee and argument tokens that were written, in that order: layout and comments may change, but no token is lost, altered or fused with its neighbour. A call containing an operator that executing engines do not support (~, ||, <<, >>, &, |, ==) is rejected instead of being emitted.",
 ["programs"],"every accepted call statement: any nesting of expressions, keyword operators next to names and numbers, any literals, any layout between tokens",
 "One fixed call is tested; fusing and dropping tokens depends on which token pairs are adjacent in arbitrary expressions.",
 [V,VAL,G],[("joining call tokens without their white space",V),("re-parsing emitted statements",VAL)],["statements in kfparser.Parse result"]),
p("C05","Extension declarations compile to exactly what was declared",
 "In the schema produced for every accepted source, the extensions are exactly the declared ones, in source order, each with its name, its alias, and its configuration entries in order with key and literal value character for character (string values keep their quotes). Using one extension several times under different aliases yields independent entries.",
 ["programs"],"every valid source with any number of extension uses and configuration entries",
 "Tests use one or two extensions with one or two entries.",
 [V,S,G],[("visitor builds extensions and configuration",V)],["kfparser.Parse result"]),
p("C06","Exactly the Kuneiform language is syntactically accepted",
 "A source that is not a sentence of the Kuneiform grammar (including trailing garbage, missing terminators, unknown characters, unterminated strings or comments, misplaced sections) is rejected with an error identifiable as a syntax error, and no schema is produced. A source that is a sentence of the grammar is never reported as a syntax error.",
 ["inputs"],"all character strings: valid sources, token- and character-level corruptions of them, and random token sequences",
 "Tests have about a dozen malformed inputs; the guarantee is over all strings, and error recovery in the parser can silently swallow bad tokens.",
 [P,G,L,EL],[("lexer and parser report to the error listener",P),("error listener collects syntax errors",EL)],["error of kfparser.Parse / errors.Is syntax error"]),
p("C07","Duplicate names are rejected, and only duplicates",
 "Compilation fails with the matching error kind exactly when two tables, two actions, two extension aliases, two columns of one table, two parameters of one action, two indexes of one table, or an index and a column of one table have the same name, or one extension call receives twice into the same variable. Names that differ in any character or letter case, or that live in different tables, actions or name spaces, never conflict.",
 ["programs"],"every source: any position and distance of the two declarations, any names, any number of declarations around them",
 "Tests give one adjacent pair per kind; the rule is about every pair in declarations of any size, in both directions.",
 [VAL],[("validator contexts for tables, columns, indexes, actions, parameters, extensions",VAL)],["error kind of kfparser.Parse"]),
p("C08","Index and foreign-key references resolve to real columns and tables",
 "Compilation succeeds only if every column named by every index and every child column of every foreign key is a column of the same table, and every foreign key's parent table is declared and has every named parent column; otherwise it fails with the column-not-found or table-not-found kind. References to tables declared later, to the table itself, or in cycles are accepted, as is any other reference that does resolve; an index name, a column of another table or a differently-cased name is no substitute for a column.",
 ["programs"],"every source: any dangling position in any column list of any index or foreign key of any table; any declaration order",
 "Tests have one dangling reference per kind, in the first position; the rule is for every position of every list.",
 [VAL],[("index columns checked per table, foreign keys after all tables",VAL)],["error kind of kfparser.Parse"]),
p("C09","Calls resolve to declared actions and extension aliases",
 "Compilation succeeds only if every action call in every statement of every body (init included) names an action of the same schema, and every extension call names an alias declared by a use directive; otherwise it fails with the action-not-found or extension-not-found kind. Calls to actions declared later, to itself, or mutually recursive calls are accepted; an extension's own name, a table's name or a differently-cased name is no substitute.",
 ["programs"],"every source: any call position in any action or init, any set of declared actions, extensions and tables",
 "Tests have one unresolved call of each kind as the only statement.",
 [VAL],[("statement walk after all actions are known",VAL)],["error kind of kfparser.Parse"]),
p("C10","Call arguments only use variables that are in scope",
 "Compilation succeeds only if every $variable in the arguments of every call, at any depth of nesting in operators, parentheses and functions, is a parameter of that action or was received from an extension call earlier in that same body, and every @variable there is @caller; otherwise it fails with the variable-not-found kind. Variables of other actions, of later statements or differing in letter case do not count, and variables that are in scope are always accepted.",
 ["programs"],"every source: any argument expression, any order of calls and receivers in a body, any sequence of actions",
 "Tests use one undefined variable as the whole argument; scoping depends on nesting depth, statement order and leakage between bodies.",
 [VAL],[("argument reference check and per-body variable context",VAL)],["error kind of kfparser.Parse"]),
p("C11","Column constraints fit the column type and occur once",
 "Compilation fails with the attribute-not-allowed kind if an int column has minlen or maxlen or a text column has min or max, and with the duplicate-attribute kind if a column has one constraint kind twice, in any table, column and constraint position. Every other combination of constraints on int, text and blob columns is accepted.",
 ["programs"],"every column definition: all types and all sequences of constraints, in any column of any table",
 "Tests check four fixed columns; the rule quantifies over all constraint sequences and positions.",
 [VAL,V,T],[("column check in the validator",VAL)],["error kind of kfparser.Parse"]),
p("C12","Contradictory or repeated modifiers are rejected",
 "Compilation fails with the matching error kind if an action states its visibility more than once, view more than once or owner more than once, if there is more than one init block, or if a foreign key states more than one reaction for the same trigger. Each modifier given at most once is accepted in every order, and one on_update plus one on_delete reaction is accepted in either order.",
 ["programs"],"every sequence of action modifiers, foreign-key reactions and init blocks in any position of any source",
 "Tests hold a few fixed combinations; the rule is over all sequences.",
 [V,VAL],[("modifier list check, init count",V),("foreign key reaction check",VAL)],["error kind of kfparser.Parse"]),
p("C13","No SQL outside the supported dialect is compiled",
 "Compilation fails if any SQL statement, in any position of any action or init, is malformed or uses something the documentation bans (non-deterministic or math functions, cross/natural/comma joins, join conditions other than one column equality), however it is nested in subqueries, CTEs, or expressions, whatever its letter case. A statement that the supported SQL dialect accepts never makes compilation fail.",
 ["programs"],"every body: any statement position, banned constructs at any nesting depth, valid statements of every kind",
 "Tests compile a handful of valid SQL statements and barely any invalid ones; banning must hold at every position and nesting.",
 [VAL,"docs/syntax.md"],[("every SQL statement is parsed and re-generated by the SQL dialect parser",VAL)],["error of kfparser.Parse"]),
p("C14","Compilation is total: any input yields a schema or an error",
 "For every input text the compiler returns, within time bounded by a small multiple of what the input size warrants, either a schema or an error; it never panics, crashes, hangs, or returns neither. This also holds for reading annotations and for every combination of inputs fed to one process.",
 ["inputs"],"all byte strings: random bytes, random token soup, corrupted and truncated valid sources, deep nesting, very long tokens and lists, invalid UTF-8",
 "Tests feed a few dozen well-behaved inputs; totality is over all inputs, and the visitor walks partially built trees.",
 [P,V,VAL,A],[("recover around parsing and validation",P)],["kfparser.Parse returns"]),
p("C15","Compilation is deterministic, independent of history and concurrency",
 "Compiling the same source always gives the same schema and JSON bytes, or the same error text, regardless of what was compiled before in the process (including failing sources), how often, and what is compiled concurrently in other goroutines; concurrent compilations do not race on shared data. A schema once returned never changes because of other compilations, what its owner does to it never affects later ones, and several goroutines may validate it, serialise it and read its annotations at once.",
 ["histories","schedules"],"every history of compilations of valid and invalid sources, sequential or concurrent, in one process or in fresh ones",
 "Each test compiles each source once, in sequence, and never compares runs.",
 [P,V,VAL],[("per-call lexer, parser, visitor and validator state",P)],["kfparser.Parse result and error"]),
p("C16","Layout, comments and synonyms never change the result",
 "Two sources that differ only in blanks, tabs, line breaks of any style, comments, an optional trailing comma in a table, the presence of 'do' in a reaction, or the long and short spelling of a keyword (foreign_key/fk, references/ref) compile to the same schema or fail with the same kind of error. The text inside literals and SQL statements is not layout.",
 ["inputs"],"every source and every re-layout of it, with comments containing any text at any token boundary",
 "Tests each use one layout; the relation quantifies over pairs of layouts.",
 [V,L,G],[("white space and comments on the hidden channel",L)],["kfparser.Parse result"]),
p("C17","Declaration order never changes meaning",
 "Reordering the table, action and init declarations of a source leaves the verdict and the compiled content of each declaration unchanged; only the order of tables and of actions in the output follows the source. The same holds for reordering extension uses.",
 ["programs"],"every source and every permutation of its declarations, including forward, self and mutual references, valid or not",
 "Tests have one order per source.",
 [V,VAL],[("two-phase validation: collect names, then check references",VAL)],["kfparser.Parse result"]),
p("C18","The JSON document is a lossless image of the schema",
 "The JSON produced for every accepted source is valid, uses the documented field names, decodes into a schema equal to the one returned (every string preserved, including quotes, backslashes, control characters, <, >, & and non-ASCII), re-encodes to the same bytes, and passes semantic validation again. The JSON of each table, column, index, foreign key, action and extension on its own equals its part in the whole document. The JSON of a schema built or edited in memory is that of its present content.",
 ["programs"],"every accepted source and every part of its schema",
 "No test looks at JSON text at all.",
 [S],[("json tags and marshalling",S)],["ToJSON output"]),
p("C19","Annotations parse back to what was written",
 "For every annotation in an accepted source, the annotation text in the output, given to the annotation reader, yields the same target and the same attributes in the same order, with each number and each quoted string (escapes, commas, parentheses, equal signs and all) character for character.",
 ["inputs"],"every annotation: any number of attributes, any names, numbers and string contents, any layout in the source",
 "Tests parse four simple annotations without special characters.",
 [A,V],[("annotation text extraction",V),("attribute regular expression",A)],["utils.ParseAnnotation"]),
p("C20","A successful CLI run leaves exactly the schema's JSON",
 "When the command exits 0 on a source, the file <output dir>/<source base name without its last extension>.json holds exactly the JSON of that source and not a byte more, whatever was in that file or directory before, and no other file is created, changed or removed, also when several runs with different outputs happen at once, and whatever kind of file the source is. It exits 0 for every source the library accepts.",
 ["histories","configurations"],"every sequence of command runs: any accepted sources, file names, output directories (existing, nested, missing), pre-existing output of any length",
 "There is no test of the command at all; stale content only shows over a sequence of runs.",
 [C],[("writing the output file",C)],["file system after the run","exit status"]),
p("C21","A failing CLI run says why and leaves no output",
 "When the source is missing, unreadable or rejected, or the arguments are wrong, the command exits with the documented non-zero status for that cause, reports the error, and leaves every existing file (an older output of the same name included) as it was and creates no file. Asking for the version or for help prints it, exits 0 and touches nothing.",
 ["histories","configurations"],"every invocation: rejected sources of every kind, missing inputs, bad flags, directories as inputs, unusable output directories, with any files already present",
 "There is no test of the command at all.",
 [C,"main.go","version/build.go"],[("exit codes, order of checks before writing",C)],["exit status","stderr","file system after the run"]),
p("C22","The CLI never reports success for an output it could not write",
 "If the output file cannot be opened, fully written or closed (full disk, file-size limit, a directory or read-only file in its place, missing permission), the command exits with the write-failure status and an error message; exit status 0 means the complete document is in the file.",
 ["fault_sequences","inputs"],"every source size and every point at which writing the output fails",
 "No test injects a write fault.",
 [C],[("write and close errors",C)],["exit status and output file"]),
p("C23","The WebAssembly build agrees with the native compiler",
 "For every source text, the function exported to JavaScript returns the same JSON and no error when the native compiler accepts it, and an error carrying the native error text and no JSON when it rejects it; a wrong number of arguments gives an explanatory string. It keeps doing so over any sequence of calls.",
 ["inputs","histories"],"every source (valid, invalid, any Unicode) and every sequence of calls of one loaded module",
 "The wasm wrapper has no test.",
 [W,P],[("result object of the exported function",W)],["parseKuneiform in JavaScript"]),
p("C24","Syntax errors point at the first offending place",
 "For every syntactically invalid source, the reported error starts with the line (from 1, counting line feeds) and column (from 0, in characters) of the first token or character that no valid continuation could contain, or of the unreadable character right behind it if the parser had to look that far ahead, whatever blanks, comments and non-ASCII text precede it. The total number of errors is told only when there are several, and a semantic error is never reported for such a source.",
 ["inputs"],"every corrupted source with the corruption at any place",
 "Tests only check that some error occurs.",
 [EL,P],[("error listener formats positions",EL),("first error of the list is the message",EL)],["error text of kfparser.Parse"]),
p("C25","The validator decides hand-built schemas by the same rules",
 "A schema assembled in memory or decoded from JSON (including empty aliases, empty lists and names no source could spell) is accepted by the validator exactly if it obeys the naming, reference, call, variable and constraint rules, and is otherwise rejected with the kind of some rule it breaks. Validation never changes the schema, and a fresh validator gives the same verdict every time.",
 ["inputs"],"every in-memory schema over small and large name pools, with any combination of rule violations",
 "Tests only reach the validator through the parser with one violation at a time.",
 [VAL,S],[("validator over schema structures",VAL)],["Schema.Accept with a context validator"]),
p("C26","Keyword lookups match the language, in any letter case",
 "The column-type, attribute and index-kind lookups accept a word exactly if it is, ignoring letter case, one of the language's keywords of that kind (and null as a column type), and return the same schema type that the compiler emits for that keyword; every other word gives an error and an empty type.",
 ["inputs"],"all strings: every keyword in every letter case, near misses, and arbitrary text",
 "The lookups have no test.",
 [T,V],[("keyword maps",T)],["schema.GetColumnType, GetAttributeType, GetIndexType"]),
p("C27","Trace mode only observes",
 "Compiling with tracing on gives the same schema or the same error as without, for every source; without tracing the compiler prints nothing; the command with --trace writes the same file and exits with the same status as without, while printing a trace of the visited declarations.",
 ["programs","configurations"],"every source, accepted or rejected, with tracing on and off, by library and by command",
 "No test runs with tracing on.",
 [V,P,C],[("trace printing in the visitor and parser",V),("trace flag",C)],["kfparser.ParseKF with Trace mode","kuneiform --trace"]),
p("C28","Every schema that obeys the rules compiles, at any scale",
 "A source that follows the grammar and the documented semantic rules is accepted, for any number of extensions, tables, columns, indexes, foreign keys, actions, parameters, statements, arguments and nesting levels, any length of names, literals and statements, and any names that are not keywords, however similar to keywords or to each other.",
 ["programs"],"all rule-abiding sources, from empty to thousands of declarations",
 "Tests accept a few dozen tiny sources; a false rejection can hide behind any size or combination.",
 [P,V,VAL,G,L],[("no limits in visitor and validator",VAL)],["kfparser.Parse accepts"]),
p("C29","Independent parts compile independently",
 "Joining the declarations of two valid sources whose names do not collide compiles to exactly the extensions, tables and actions of the one followed by those of the other. Adding or removing a declaration nothing refers to changes nothing else in the output, and if one part alone is rejected for a semantic reason the joint source is rejected with the same kind.",
 ["programs"],"every pair of sources with disjoint names, and every unreferenced declaration",
 "No test relates the outputs of two sources; leaking state between declarations shows only in combinations.",
 [V,VAL],[("per-declaration visitor results and validator contexts",V)],["kfparser.Parse results"]),
p("C30","Names carry no hidden meaning",
 "Consistently renaming the database, tables, columns, indexes, actions, parameters, variables, extensions and aliases of a source to other legal, distinct, non-keyword names gives the same verdict and the same schema up to that renaming.",
 ["programs"],"every source and every injective renaming, including names that start with or contain keywords, differ only in case, are one letter long or very long",
 "Tests use one naming style; a name-dependent decision is invisible to them.",
 [V,VAL,L],[("identifiers are copied and compared as whole strings",VAL)],["kfparser.Parse results"]),
p("C31","Semantic errors name the offender",
 "When a source is rejected for a semantic reason, the error is of exactly one documented kind, one the source deserves, and its text gives that kind's message and names an actual offender of that kind exactly as the source spells it: the repeated or missing table, column (with its table), index, parameter, variable, action or extension alias, the constraint and its column type, or the repeated modifier or trigger. When an SQL statement is outside the dialect, the error contains that statement.",
 ["programs"],"every source that breaks one or several semantic rules, at any position, with any names",
 "Tests compare the kind for one small source each; that the right thing is named among many declarations is over all sources.",
 [VAL,V,"schema/errors.go",EL],[("validator formats each error with the name at fault",VAL),("modifier errors of the visitor",V),("error sentinels","schema/errors.go")],["error text and errors.Is of kfparser.Parse"]),
p("C32","Error listeners collect everything and alter nothing",
 "A list of errors reports its first error, together with how many more there are exactly if there are more; it is nil as an error exactly if it is empty, and stands for its first error under errors.Is. Compiling with a fresh listener of the caller gives the same schema and the same error as compiling without, and afterwards the listener has exactly that error: for a source that is no sentence, every complaint of the lexer and the parser, each once and in the order reported; otherwise the one rule broken. Listeners share nothing.",
 ["histories","inputs"],"every sequence of reported errors, and every source compiled with and without a caller's listener",
 "Tests never look into a listener and only use sources with one or two errors.",
 [EL,P],[("error list and listener",EL),("listener handed to lexer and parser, errors added at the end",P)],["utils.ErrorListener methods","kfparser.ParseKF with a listener"]),
p("C33","Every schema node reaches its own visitor method",
 "For every node of every schema, compiled or built by hand (the schema, each extension, table, column, attribute, index, foreign key and action), Accept calls exactly the visitor method of that node type, once, with that very node, returns exactly what the visitor returned, and changes nothing.",
 ["programs"],"every node of every schema, with visitors that succeed and visitors that fail",
 "Tests use one visitor, the validator, which never sees most node types on their own.",
 [S],[("Accept methods",S)],["Accept of schema nodes with a foreign Validator"]),
p("C34","The annotation reader reads the documented form",
 "Every text of the documented form target(name=NUMBER, name='string', ...), with names of letters, digits and underscores and any blanks around names, equal signs, commas and parentheses after the target, is read into that target and exactly those attributes in order with the values character for character; writing the result down again reads the same. A text without an opening parenthesis or not ending in a closing one is an error and gives no annotation.",
 ["inputs"],"all annotation texts of the documented form with any blanks and literals, and texts that lack the form",
 "Tests read a dozen fixed annotations.",
 [A],[("annotation reader",A)],["utils.ParseAnnotation"]),
]
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in props: assert len(x["title"])<=80,x["id"]
