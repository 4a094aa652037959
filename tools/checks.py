SIM="Path-sensitive abstract interpretation of the SSA program (property simulation, memoised per call context) from every exported entry point and goroutine. "
check("C01",SIM+"Lockset analysis: every access to a field of a lock-owning object is recorded with the locks held on that object, and every conflicting pair without a common excluding lock is reported (static Eraser).",
 "All paths, all pairs of entry points; trusts the access-path abstraction (one summary object per type and path) and the assumption that a composite object does not contain itself.")
check("C02",SIM+"Lock typestate per access path (unheld/read/write) with call-context inlining, plus a global lock-order graph checked for cycles.",
 "All paths; trusts that function values passed in by callers take no locks of the same object.")
check("S02","Path-sensitive abstract interpretation of every read-only exported operation that takes a collection name. The collection string is a symbolic value; statement texts and argument lists are built up as templates, each SELECT is tokenised and its WHERE clause split into conjuncts, and its rows count as restricted only if a conjunct ties the row's collection to a placeholder bound to the symbolic name. Rows of any other statement carry a taint that only an exact comparison of a row value with the name, on every path to the place where the row is kept, removes; taint in the result, or an unrestricted aggregate, is reported.",
 "All read-only exported operations of core, cortexdb and hindsight with a collection parameter or field; loops and recursion to a fixpoint, lists of conditions widened; the case of a non-empty collection name.")

check("D02",SIM+"Every storage call forks into a success and a failure outcome; the failure outcome is followed, with error values tracked through wrapping, comparison with sentinels and rows.Err, to the returns of the entry point. A return of a nil error on such a path is reported.",
 "All single failures at all storage call sites on all paths; failures inside callbacks supplied by the application are not injected.")

check("C03",SIM+"Typestate of the store's closed flag: each database operation in the store's package must be reached with the store's lock held and the flag seen false under that same hold; a path that saw the flag true must end in the store-closed error.",
 "All paths from every exported store operation and the goroutines they start; operations of the graph and cortexdb layers issued on the shared handle rely on database/sql's own refusal.")

check("D03",SIM+"Resource typestate: each call that hands out a result set, prepared statement, transaction, connection, file or database handle opens an obligation that must be discharged (closed, exhausted, committed, rolled back, returned, stored in an owner or given to a goroutine) on every path to a return of the entry point.",
 "All paths from every exported function and goroutine; an object's own Close is trusted to release what the object owns.")

check("D01",SIM+"Transaction typestate: each write statement is attributed to the transaction or handle it runs on, with every storage call split into success and failure; per entry point at most one unit (auto-committed statement or committed transaction) may become durable, none may be durable when a later storage call fails the operation, and no write may bypass the open transaction.",
 "All paths and all single storage failures or crash points of every exported store and graph operation; SQLite's own atomicity of a statement and of a transaction is trusted.")

check("S01","Demand-driven backward value flow over the SSA program from the text argument of every database call: through concatenation, builders, Sprintf and Join, slices, maps, fields, parameters (all callers) and results (all callees). Every source reached must be a constant, an integer, or a string chosen by the program from constants; anything else (a parameter of an exported function, a field a caller fills, a row value) is reported with its path.",
 "All statements of the module, all flows through module code; integers formatted with %d or strconv are accepted, and a value compared equal to a constant on every path to the use is accepted.")
check("X01","Interprocedural context-flow analysis on the SSA program: all functions reachable from a context-taking function (static calls, closures, interface calls to module types) are collected; in each, every context argument is traced backwards through phis, locals, captured variables, context.With*, and helper results. An origin of Background, TODO, WithoutCancel or nil, or a context-less database call, is reported with the operation it runs for.",
 "All call paths within the module. A fallback for a nil context is accepted; goroutines nobody waits for and timer callbacks are exempt.")
check("F01","Schema analysis: the DDL texts reaching the database are evaluated from the SSA program and parsed into tables, foreign keys, full-text tables and triggers. For each mirrored table the insert, update and delete triggers are checked to pass exactly the old and new values on, without conditions; every reference column must be a cascading foreign key to the right table; every connection string must switch foreign keys on; and no statement may bypass triggers (REPLACE without recursive triggers, direct writes to the full-text table, dropped triggers, foreign keys switched off).",
 "The whole schema and every statement text of the module; relies on SQLite's trigger and foreign-key semantics, for which these conditions are sufficient.")
check("R01","Dataflow between statement texts and record fields: every INSERT, UPDATE and SELECT reaching the database is evaluated and parsed; each bound argument is traced backwards, and each scanned column forwards, through locals, helpers, encoders, closures and private carrier structs to the record field it belongs to. Columns, placeholders, arguments and Scan destinations must agree in number; the column-to-field maps of writes and reads must agree; records may not leave out a stored column they have a field for; conflict clauses must replace every inserted column with its own new value; field-by-field copies and JSON types must be complete.",
 "All statement texts and Scan calls of the module; values that cannot be followed (dynamic calls) are counted and not judged. Encoders and decoders are trusted to be inverse (that part is value-level).")
check("I01","Interprocedural typestate analysis: for every exported operation of the stores, all paths are followed with transactions, the row changes each statement makes (parsed from its text, cascades taken from the schema) and the changes applied to each index as state. At every successful return, each durable row change must have been applied to every index in use on that path (a replaced row removed first); a failing return with no row changed may not follow an index change; ids removed that were selected by a query must be selected by the condition rows are deleted by. Snapshot rule: unconditional triggers on insert, delete and vector update of embeddings drop the stored index.",
 "Loops are followed with at least one iteration where the slice is not known to be empty. An index counts as not in use on a path when it is nil, disabled or untrained there. Ids are compared by the condition that selected them; that ids handed in by the caller are the ones removed is not compared value by value. The graph behaviour inside HNSW/IVF is trusted.")
check("S03","Interprocedural symbolic-value dataflow: each addressed operation is followed along all its paths with the addressing argument as a marked value through strings, key construction, argument lists and statement texts. Every statement over the tables the argument identifies is parsed; one of its conjuncts (each part of a disjunction) must compare the addressing column with a placeholder that takes the marked value, or, for a session to leave out, exclude it. A composite key must contain the owner and the namespace with the separator escaped in all parts but one. The condition of the access-control search must consist of alternatives that take public rows or rows whose list holds one of the given values.",
 "The operations and their addressing columns are a table in p_target.go; an operation added later is not judged until it is listed. For lists of ids the shape of the condition is judged, not which element each placeholder takes. Restriction done in memory after the query (GetDocumentsByType) is not in the table.")
check("S04","Interprocedural dataflow over all paths of every read operation that takes a metadata filter (and every hindsight function that takes a bank): the filter's values are marked, loops over the filter run at least once, rows carry a mark from the statement that read them. A row loses its mark when the statement has a conjunct equal to a placeholder taking the marked value, or when, on the path that keeps it, a value of that row was found equal to the marked value and the loop over the filter ran to its end. A marked row in the result is reported with the statement it comes from; so is an aggregate over unrestricted rows. Separately, entries with the keys that searches select by may not be followed by updates of the same map with keys from outside.",
 "Filter expressions (PreFilter, PostFilter, facets) are not judged here. Facet counts describe the whole collection. Which metadata key a value is compared with is not followed. Comparison by anything but equality counts as no comparison.")
check("Q01","Interprocedural dataflow over all paths of every exported operation that takes a limit or threshold and answers with a list: each list carries facts (shorter than / at most the limit, ranked best first by its score, every element compared with the threshold, taken in order from which list). Comparators handed to sort routines are analysed themselves (which field of which element decides, in which direction); hand-written exchange sorts are recognised by their loop and exchange condition; SQL LIMIT and ORDER BY rows count when the limit is bound. At every return the facts must hold; every cut (reslice, bounded loop, break at the limit) of an unranked list is reported.",
 "Order and limit only: whether the score itself is right, and which candidates the index proposes, are not judged. Diversity and reranked searches define their own order. Searches documented without threshold are exempt (table in p_topk.go). Lists whose origin is not followed are counted, not judged.")
check("E01","Path-sensitive abstract evaluation per operator over a finite domain of relations. The evaluator is run once per operator with the stored and the given value tracked through conversions and comparisons; each path carries the set of relations (less, equal, greater) still possible between them, and its answer is compared with the operator's definition. The SQL renderers are run once per operator to get the symbolic condition text and its bound arguments; the condition is parsed and decided by a three-valued interpreter for every relation of the field to its arguments, for true and false operands and for a missing field. The filter builders are run on empty and non-empty filters and the expression tree they leave is compared with the one their name denotes. The parser's operator table is checked for operators shadowed by an earlier entry and for wrong meanings.",
 "Type coercion between the routes (CAST, %v text), != on a missing field in SQL, the precedence rules of ParseFilterString and its BETWEEN syntax, wildcard characters inside facet patterns, and paths whose text or value is not followed are not judged.")
check("A01","Points-to analysis with function summaries over the SSA of all module functions: flow-sensitive states of which place (parameter, allocation; field, element and dereference paths) refers to which object, with strong updates of single places, nil and empty tests, append, copy, channels, closures, interface calls resolved to all module implementations, and summaries applied at calls until stable. For each exported method of a pointer type the exit states tell which caller-owned slices, maps and plain records are reachable from the receiver or a global (kept), which element writes reach the caller's containers (overwritten), and which returned references are reachable from the receiver (handed out).",
 "Paths of places are cut at nine steps; pointers to records that carry behaviour or unexported state (routes with handlers, stores) are shared by design and not judged; fields of records passed by pointer may be filled in; elements of interface type inside copied maps are not followed; constructors may keep their configuration.")
check("T01","Constant evaluation of the tool definitions' composite literals and schema helpers over the type-checked syntax, joined with the dispatch branches and registrations found in the SSA (comparisons with constant names, handler maps and tables, wrapped and generic handlers) and with the JSON fields of the request types; a whole-program search for reads of each request field from the method the tool runs",
 "A schema or name built at run time is counted as not followed and not judged; that a field which is read also has the effect its description promises is not judged; length and range limits are not part of the schemas.")
check("G01","Channel and wait-group protocol analysis on the SSA program: every channel and wait group is traced to where it is made through variables, captures, parameters and fields; per goroutine, events (done, send, close) are counted over all paths of its body and helpers, and the starters' paths are followed with the state of the wait group; buffer sizes, loop bounds and receive loops are compared symbolically; closing is checked against locks and flags held at every send",
 "Goroutines started through function values that cannot be resolved are counted and not judged; channels supplied by the caller of an exported function are taken to be closed by the caller; what user callbacks do is not followed; a goroutine that computes for ever without channels is found only if its loop has no exit at all.")
check("V01","Length analysis of vector accesses on the SSA program: every indexed or sliced vector with its symbolic length, the equality and bound facts of dominating comparisons (also through helpers, error results, short-circuit conditions and for-all loops), and what is not proved in a function is pushed to its callers until it is proved or reaches the public interface",
 "Lengths held by an index or quantizer itself (set by its constructor or loader) are trusted; vectors indexed by positions without a numeric bound (sort callbacks) and vectors of an embedder that returns fewer than asked are not judged; whether the dimension configured is the right one is not judged.")

na("N01","recall is a statistical property of a data set and of random level draws; no static argument in reach bounds which neighbours a greedy graph walk misses. (What is decidable about the indexes - that they hold exactly the stored rows - is I01.)")
na("N02","durability below the driver is decided by SQLite and fsync, whose code is not part of this repository; the statement-level part (one unit, success only after commit) is D01.")
na("N03","the error bound is an inequality between floating-point values that depend on the training set; dataflow over the source cannot bound it.")
na("N04","numeric fixpoints over arbitrary graphs: values, not constructs, decide them.")
na("N05","linearizability quantifies over whole histories of values in a database reached through SQL; static analysis decides the discipline it rests on (C01, C02, D01, I01), not the histories.")
na("N06","floating-point trigonometry against a grid: deciding membership at the borders needs reasoning about rounding of runtime values.")
na("N07","functional equivalence of floating-point loops to a formula, with rounding, is outside dataflow analysis.")
