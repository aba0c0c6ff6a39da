M = "property-based testing (rapid): "
std = " Random search with shrinking, no proof; trusts the harness's own model and generator, which are written from the documentation and never call the code under test."
t("C01", M+"generated documents against an independent model of the expected output", "Documents of every shape and size (up to hundreds of members per list) compared field by field with the model."+std)
t("C02", M+"generated documents against an independent model of the expected output", "All modifier subsets and orders, positions of init, counts of actions, parameters and annotations."+std)
t("C03", M+"generated SQL statements must reappear byte for byte at their position", "SQL texts with random case, blanks, comments, quotes, line breaks and non-ASCII text in every position of bodies."+std)
t("C04", M+"round trip of call statements through an independent lexer and a second compilation", "Expression trees of all operators and token adjacencies; unsupported operators injected at random places must be rejected."+std)
t("C05", M+"generated extension uses against an independent model of the expected output", "Up to hundreds of uses and configuration entries with arbitrary literals."+std)
t("C06", M+"mutation fuzzing of sources against an independent lexer and Earley recogniser of the grammar", "Token and character corruptions, token soup; the reference recogniser was checked against the generated parser on hundreds of thousands of cases."+std)
t("C07", M+"mutated and dense documents against an independent rule checker", "Both directions: planted duplicates at every kind and distance must be rejected with their kind, near-duplicates accepted."+std)
t("C08", M+"mutated and dense documents against an independent rule checker", "Dangling columns and tables at random positions of random lists, near misses, forward, self and cyclic references."+std)
t("C09", M+"mutated and dense documents against an independent rule checker", "Unresolved calls at random positions, names of other kinds as substitutes, forward and recursive calls."+std)
t("C10", M+"mutated and dense documents against an independent rule checker", "Out-of-scope variables at random depth of argument expressions, scoping by order and body."+std)
t("C11", M+"constraint sequences of all types against an independent rule checker", "All types, up to eight constraints per column, at random positions."+std)
t("C12", M+"modifier, reaction and init sequences against an independent rule checker", "Sequences of up to five modifiers and reactions, several init blocks."+std)
t("C13", M+"SQL mutation: banned or broken constructs planted in generated statements; valid ones must pass the dialect parser and the compiler alike", "The supported dialect is the dependency kwil-db/parse, called directly as oracle for acceptance; the bans are planted from the documentation."+std)
t("C14", M+"fuzzing with bytes, token soup, truncations, deep nesting and long tokens under a CPU watchdog", "No panic, no crash, no missing result, at most 30 s of CPU for any case in a process of its own."+std)
t("C24", M+"corrupted sources against an independent lexer and Earley recogniser that gives the first offending place", "Line and column of the first offending place after layouts with comments, all line endings and non-ASCII text."+std)
t("C28", M+"valid-by-construction documents at all scales must be accepted", "One dimension at a time made large; fixed documents with thousands of declarations."+std)
t("C15", M+"histories of compilations compared with fresh processes, sequentially and in concurrent goroutines under the race detector", "Random histories over several sources; every result, sequential or concurrent, must equal that of a new process."+std)
t("C16", M+"metamorphic: two layouts of one token list must compile alike", "Layouts with any comments, blanks, line ends and synonyms, of valid, rule-breaking and corrupted sources; the reference lexer confirms the texts are equivalent."+std)
t("C17", M+"metamorphic: permuted declarations must give the same verdict and contents", "Reversals, rotations and shuffles of valid and rule-breaking documents."+std)
t("C18", M+"round trip through JSON: decode, compare, re-encode, validate again, and compare the parts", "Documents with control characters, quotes and any Unicode in literals and SQL."+std)
t("C19", M+"round trip of annotations through the annotation reader against an independent model", "Annotations with any number of attributes, string contents and layouts."+std)
t("C20", M+"stateful: sequences of command runs against a model of the directory tree", "Runs in a scratch directory as an unprivileged user; the whole tree is compared after every run."+std)
t("C21", M+"stateful: sequences of failing command runs against a model of status, report and directory tree", "Every documented cause of failure, mixed with good runs, bystander files and older outputs."+std)
t("C22", M+"fault enumeration (a write failing at every byte) and generated faults: size limits, modes, devices and injected system call errors", "Every byte of several outputs, random faults on random sources; strace injects errors of open, write and close where it works.", "fault_enumeration")
t("C23", M+"differential testing of the WebAssembly module in node against the native library over sequences of calls", "Valid, invalid and arbitrary Unicode sources, wrong argument counts; a failing sequence is retried in a new module."+std)
t("C25", M+"generated in-memory schemas against an independent rule checker", "Also schemas that no source can spell, decoded from JSON or built directly; validated repeatedly and compared with a copy."+std)
t("C26", "property-based testing (rapid) and exhaustive enumeration of letter cases: keyword lookups against an independent table and the compiler", "All letter cases of all keywords, near misses and random texts."+std)
t("C27", M+"metamorphic: with and without tracing, by library and command", "Schema, JSON, error text, exit status and file must agree; the trace must name the declarations."+std)
t("C29", M+"metamorphic: joint compilation of disjoint sources and removal of unreferenced declarations", "Pairs of valid and rule-breaking documents made disjoint by renaming."+std)
t("C30", M+"metamorphic: consistent renaming of all names of a document", "Injective renamings to keyword-like, one-letter, case-only-different and very long names."+std)
t("C31", M+"rule-breaking documents against an independent rule checker that gives the offenders of every kind", "The error must be of one kind the reference rules give and name one of its offenders as a whole word; SQL errors must tell the statement."+std)
t("C32", M+"stateful: listener operations against a list model; differential: compilation with and without a caller's listener", "Sequences of up to six errors; sources of all sorts."+std)
t("C33", M+"generated schemas walked with recording visitors", "Every node of every generated schema, visitors that return nil or an error."+std)
t("C34", M+"generated annotation texts against an independent model, and a round trip", "Blanks of all kinds at every place the documented form leaves room for, arbitrary literals, malformed texts."+std)
