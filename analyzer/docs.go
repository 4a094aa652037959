package main

type doc struct {
	Explanation string
	Rules       []string
	Assumptions []string
}

var docs = map[string]doc{
	"C01": {
		"Every exported function and method of pkg/ and every goroutine or timer callback they start is interpreted abstractly, path by path and with calls inlined by context. Each load and store of a field reached through a lock-owning object is recorded with the locks of that object held at that moment; all pairs of accesses to the same memory, at least one a write, are then compared. A pair without a common lock held exclusively by at least one side is a violation, reported at the less protected access.",
		[]string{"race: two conflicting accesses to one cell of a lock-owning (or shared by contract) object hold no common excluding lock", "race on locals: the same for variables captured by a goroutine and used by its creator or by a second instance"},
		[]string{"objects under construction (not yet reachable from a receiver or global) are private", "an object held in an unexported field that only ever receives freshly created objects is not reachable from elsewhere", "sync/atomic operations exclude one another and nothing else; channels are safe by themselves", "an outside function writes what it is given the address of, and reads the elements of slices and maps (sorting writes them)"},
	},
	"C02": {
		"Same interpretation as C01, following the state of every mutex along every path: acquisitions, releases (including deferred ones) and returns.",
		[]string{"reacquire: a lock is taken while the same call chain holds it (shared re-acquisition included)", "unlock-unheld / unlock-mode: release of a lock not held, or in the wrong mode", "lock-leak: a path returns from an entry point still holding a lock it took", "lock-order: two locks are taken in both orders by different call chains", "unresolved-mutex: a lock operation on an object the analysis cannot name"},
		[]string{"callbacks supplied by the application take no lock of the library", "a lock-owning composite does not contain itself"},
	},
	"D02": {
		"Every exported operation of pkg/core, pkg/graph and pkg/cortexdb, and every handler registered with the MCP framework, is interpreted path by path. Each storage call (query, exec, begin, prepare, commit, scan, next/err, encode) is split into success and failure; the failed outcome is followed through wrapping, sentinel comparisons and loops to every return of the operation.",
		[]string{"swallowed: with this storage call failing, the operation can return a nil error without having recorded the failure in its result"},
		[]string{"one failure per execution; the error of an operation tried instead supersedes the failure it replaced", "closing a result set and rolling back are best effort", "errors.Is distinguishes a storage failure from the repository's own sentinels"},
	},
	"C03": {
		"Every exported operation of the store (and every goroutine it starts) is interpreted path by path. The closed flag is found from Close; taking or dropping the store's lock forgets what was seen of it.",
		[]string{"closed-unchecked: a database operation is reached without the store's lock, or without having seen the closed flag false since the lock was taken", "closed-not-reported: a path that saw the flag set returns something other than the store-closed error"},
		[]string{"nothing but Init reopens a store", "database/sql refuses work on a closed handle (graph and cortexdb layers)"},
	},
	"D03": {
		"Every exported function and goroutine is interpreted path by path with the outcome of every acquisition split into success and failure. Open resources are tracked by acquisition site through helpers, closures, deferred calls and fields of new objects.",
		[]string{"leak: a resource is still open at a return and was neither returned, stored in an object that outlives the call, nor given to a goroutine; or it is acquired again while the previous one is open with no release pending", "overwrite: a resource is stored over one a field may still hold"},
		[]string{"database/sql closes a result set when Next reports the end", "Close, Commit and Rollback release the resource even if they report an error", "an owner's Close releases what the owner holds"},
	},
	"D01": {
		"Every exported operation of pkg/core and pkg/graph is interpreted path by path. Statement texts are reconstructed to tell writes from reads; a write belongs to the transaction (or prepared statement of a transaction) it is executed on, or is durable at once. Every storage call is followed both when it succeeds and when it fails.",
		[]string{"split: a second unit becomes durable in one operation", "partial: the operation reports an error although a unit is already durable and a later storage call failed, or after its transaction was committed", "uncommitted: a return with a transaction that holds writes neither committed nor rolled back", "lost: success is reported after the transaction holding the writes was rolled back", "outside-tx: a write bypasses the open transaction"},
		[]string{"SQLite statements and transactions are atomic", "index snapshots are derived data and are not counted", "INSERT OR IGNORE of set-up rows is idempotent", "bulk file imports (Import*, Load*) work batch by batch by contract"},
	},
	"S01": {
		"The text argument of every database call (query, exec, prepare, and interface methods of the same shape) in pkg/ is traced backwards through the SSA program: concatenation, fmt, strings.Builder, Join, Repeat, slices, maps, struct fields (all stores in the program), parameters (all call sites) and results (all returns).",
		[]string{"tainted: a string that is not a constant or a formatted integer (exported parameter, caller-filled field, scanned row, decoded JSON) can become part of the statement text"},
		[]string{"reflection and unsafe are not used to write strings", "SQLite's own functions do not evaluate bound values as SQL"},
	},
	"S02": {
		"Every exported read-only operation of core, cortexdb and hindsight that takes a collection name is interpreted path by path with a symbolic non-empty name; statement texts and their argument lists are rebuilt as templates and parsed.",
		[]string{"unscoped: a row read by a statement without a conjunct tying it to the requested collection reaches the result without an exact comparison with the name on that path", "unscoped-aggregate: a figure is computed by a statement without such a conjunct"},
		[]string{"a comparison of one value of a row with the name vouches for that row", "entity names are shared by all collections", "rows held only in index structures are looked at when they are turned into results"},
	},
	"X01": {
		"Every function reachable from a context-taking function of the module, except the bodies of goroutines nobody waits for and timer callbacks; every argument of type context.Context is traced to its origins.",
		[]string{"detached: a context that does not derive from the operation's is passed on", "no-context: the context-less variant of a database call is used"},
		[]string{"calls through function values supplied by the caller get whatever the caller gave", "a context stored in a struct field by the caller counts as the caller's"},
	},
	"F01": {
		"All DDL and statement texts reaching the database in the module, and the connection strings given to sql.Open, evaluated through constants, concatenation, Sprintf and helpers.",
		[]string{"fulltext: a mirrored table lacks an unconditional trigger passing on the right old or new values", "reference: a reference column is not a cascading foreign key", "connection: foreign keys are not on for every pooled connection", "replace/direct/drop: a statement bypasses the triggers"},
		[]string{"SQLite runs AFTER triggers for every row changed, including by cascades", "reference columns are named <table>_id"},
	},
	"R01": {
		"Every database call and Scan in the module with the statement texts that reach it; bound values and scanned columns traced to the fields of exported record types.",
		[]string{"arity: columns, placeholders, arguments or destinations differ in number", "binding/mapping: a column is written from, or read into, a field that belongs to another column", "unstored/dropped: a stored field is left out by a write or a read", "upsert: a conflict clause keeps an old value or stores another column's", "copy: a field-by-field copy of a record leaves a field out", "serial: a field does not survive JSON", "unread: a selected column ends in a variable nothing reads", "null: a sql.Null value is written without ever being marked valid"},
		[]string{"field and column names agree up to case and underscores, or the write establishes the pairing", "the encoders and decoders are inverse to each other"},
	},
	"I01": {
		"All exported operations of pkg/core and pkg/graph, and every function elsewhere that writes rows of an indexed table itself; paths with transactions, row changes and index changes as state.",
		[]string{"missing: a successful return with a durable row change not applied to an index in use", "stale-entry: the new version is added without removing the earlier one", "early: a failing return with unchanged rows after an index change", "other-rows: the ids removed are selected by another condition than the rows deleted", "stale-snapshot: a change of embeddings does not drop the stored index"},
		[]string{"an index is not in use where it is nil, disabled (HNSW.Enabled, IndexType) or untrained", "Insert, Add, Delete, Remove and Clear of the index types do what their names say"},
	},
	"S03": {
		"The addressed operations listed in the property, each with its argument marked, along all paths into the functions they call; every SELECT, UPDATE and DELETE over the tables concerned (INSERT too for memory buckets).",
		[]string{"untargeted: no conjunct of the statement ties its rows to the value given by the caller, or it is bound to another value", "untargeted (lookups): an internal function reading one row by a string passed to it selects the row by that value in a unique column of the table"},
		[]string{"addressing columns as listed in p_target.go", "json_each/json_extract and FTS5 MATCH mean what SQLite documents"},
	},
	"S04": {
		"All exported read operations of pkg/core and pkg/cortexdb with a metadata filter parameter or field, one filter at a time, and all functions of pkg/hindsight with a bank; every path and every statement over embeddings they run.",
		[]string{"unfiltered: rows of a statement reach the result without having been compared with the filter", "unfiltered-aggregate: figures computed over rows that need not satisfy the filter", "overwritten: an entry rows are selected by may be replaced by metadata from outside"},
		[]string{"the filter has at least one entry; the values may be empty", "a row is kept by appending it to a list or putting it into a map"},
	},
	"Q01": {
		"All exported operations of the library packages with a limit or threshold and a list result; every path, with every helper that handles scored lists inlined.",
		[]string{"over-limit: more results than the limit may be answered", "unranked / misranked: scored results not ranked, or worst first", "cut-unranked: candidates dropped before they are ranked", "below-threshold: a result not compared with the threshold", "limit-zero: with the limit left out, all results are cut off", "relevance: a score computed from a full-text rank does not grow with the match (bm25 is the more negative the better)"},
		[]string{"sort.Slice, slices.SortFunc and the like sort by their comparator", "SQLite applies ORDER BY and LIMIT", "a limit of zero or less means unlimited unless a default is set"},
	},
	"E01": {
		"Every function of pkg/core that evaluates a FilterExpression against a metadata map, renders one or a FacetFilter as SQL, builds one (MetadataFilter methods) or holds a parser operator table; every operator, every path.",
		[]string{"evaluated-wrongly: a path answers against the operator's definition", "rendered-wrongly / not-rendered: the SQL condition selects other rows than the operator", "built-wrongly: a builder leaves another expression than its name denotes", "converted-wrongly: a value counts as a number it does not stand for", "regex-unquoted: a LIKE value is compiled as a regular expression unquoted", "parsed-wrongly: an operator is shadowed or has another meaning"},
		[]string{"SQLite's comparison, BETWEEN, IN, LIKE, COALESCE and three-valued logic behave as documented", "regexp and strconv behave as documented"},
	},
	"A01": {
		"All functions of the module are summarised; every exported method of a pointer type that is neither a plain record nor a builder is judged, and every exported function for overwriting its arguments.",
		[]string{"kept: a caller's slice, map or record becomes part of the object without being copied", "handed-out: part of the object is returned without being copied", "overwritten: elements of a caller's slice or map are changed"},
		[]string{"functions outside the module return new objects and keep nothing, except the sync and container types listed", "no unsafe, reflection or cgo keeps references (none in the module)"},
	},
	"T01": {
		"All ToolDefinition literals, every dispatch branch and handler table that takes a raw message, every registration of a toolbox method, every field of every request type.",
		[]string{"defined-twice, not-dispatched, not-registered, not-defined: the three lists of names differ", "different: one name runs different methods, or two names the same", "dropped: a request, response or error is not handed on", "schema: a property without a field, a field without a property, or a JSON type the field does not accept", "required: required in the schema and optional in the request, or the reverse", "ignored: nothing the tool runs reads the field"},
		[]string{"encoding/json and the MCP library decode a request by its JSON tags and derive required fields from omitempty", "a field that is read somewhere below the tool's method is used by the tool"},
	},
	"G01": {
		"Every go statement of the module with its body and helpers, every send, receive, select and close, every wait group and every Close method of an object with background goroutines.",
		[]string{"done, add, add-inside, never-waited, not-awaited: wait group protocol", "send, receive: a wait that may not end", "never-closed: a stream handed out that is not closed on every path", "closed-twice, send-after-close: a crash", "endless, closed-unnoticed: a goroutine that does not end", "outlives-close, close-leaves-running: background work goes on after Close", "never-ended: a background loop whose end nothing signals"},
		[]string{"sync.WaitGroup, sync.Once, select and channels behave as the language defines", "a context or timer alternative in a select ends the wait (contexts are cancelled in the end)", "channels given by callers are closed by them"},
	},
	"V01": {
		"Every indexed read, slice and copy of a float or code vector in the module, every element-wise pair of two vectors, every vector kept by an index of a fixed dimension.",
		[]string{"length: a vector is read up to a bound not known to be within its length", "length: two vectors are combined element by element without an equality of their lengths", "length: a vector of unchecked length is kept by an index of a fixed dimension"},
		[]string{"configured dimensions and the vectors an index holds agree (constructors and loaders)", "function values called have the signature-compatible functions stored in that field"},
	},
}
