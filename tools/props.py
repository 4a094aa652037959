prop("C01","Concurrent calls never race on an object's in-memory state",
 "Any number of goroutines may call the exported methods of one vector store, vector index (HNSW, IVF, flat, LSH, multi/hybrid), graph index, router, encoder, geo index or memory system at the same time. Every mutable field of such an object that two calls can both reach is accessed under a lock of that object which excludes the conflicting access (exclusive for writes). The same holds for variables shared between the goroutines one call starts.",
 ["schedules","programs"],"every pair of exported entry points (and background goroutine), every interleaving, every field",
 "The tests run without the race detector and sample a handful of interleavings; a missing lock on one of ~150 shared fields almost never shows.",
 ["pkg/core/store.go","pkg/index/hnsw.go","pkg/index/ivf.go","pkg/index/multi_index.go","pkg/semantic-router/hybrid.go","pkg/hindsight/hindsight.go","pkg/geo/geospatial.go"],
 [("per-object RWMutex guarding the object's fields","pkg/core/store.go SQLiteStore.mu, pkg/index/*.go mu, pkg/semantic-router/*.go")])
prop("C02","Locks are always released and never acquired in a deadlocking order",
 "Every exported call releases, on every return path, each lock it took, exactly once and in the matching mode. No call acquires a lock that it already holds (shared re-acquisition included, because a waiting writer then blocks it for ever), and across all calls locks are acquired in one consistent order.",
 ["schedules","programs"],"every path through every exported function and background goroutine, including error returns",
 "Deadlocks need a writer to arrive between two read acquisitions or an error on a rarely taken path; tests with one goroutine cannot meet either.",
 ["pkg/core/store_crud.go","pkg/core/store_search.go","pkg/core/advanced_search.go","pkg/index/hnsw.go","pkg/semantic-router/router.go","pkg/hindsight/hindsight.go"],
 [("Lock/Unlock pairing and nesting","all uses of sync.Mutex/RWMutex in pkg/")])
prop("C03","A closed store refuses work instead of touching the database",
 "Once Close has begun, every operation of the vector store that needs the database returns the store-closed error and executes no statement, also when Close runs concurrently with the operation. Background work started by the store (auto-save) does not touch the database after Close either.",
 ["schedules","histories"],"every exported operation of the store, every interleaving with Close",
 "Tests close the store once and try two or three operations; they cannot interleave Close between the check and the use for every operation.",
 ["pkg/core/store_close.go","pkg/core/store_crud.go","pkg/core/store_search.go","pkg/core/chat.go","pkg/core/document.go","pkg/core/store_index.go"],
 [("closed flag read under the store lock held until the statement has run","pkg/core/*.go 's.closed'")])
prop("S01","Caller-supplied text never becomes part of a SQL statement",
 "The text of every SQL statement is composed only of program constants, placeholders and integers. Strings that come from callers (ids, names, metadata keys and values, filter and facet fields, order-by and file names, tool arguments) or from stored rows reach the database only as bound parameters.",
 ["inputs"],"every string argument and option of every exported function, every stored value",
 "Tests use benign identifiers; the set of strings containing quotes or SQL is unbounded.",
 ["pkg/core/advanced_filter.go","pkg/core/aggregations.go","pkg/core/faceted_search.go","pkg/core/io.go","pkg/graph/graph_hybrid.go","pkg/cortexdb/cortexdb.go"],
 [("statement construction","every Query/Exec/Prepare call in pkg/")])
prop("S02","A search or aggregate given a collection never sees another collection",
 "When a collection name is given to a vector search, filtered, faceted, text or hybrid search, range search, aggregation or graph-retrieval call of the vector store (pkg/core), the database API (pkg/cortexdb) or hindsight, every stored row that contributes to the result belongs to that collection, whatever other filters are present and whichever index serves the query. (Entity names attached to graph-retrieval results are shared by all collections.)",
 ["inputs","configurations"],"every combination of collection, metadata filter, facet, text query and index configuration",
 "Tests query one or two collections with one filter at a time and one index; the precedence of combined conditions and each index path are not enumerated.",
 ["pkg/core/store_search.go","pkg/core/advanced_filter.go","pkg/core/faceted_search.go","pkg/core/aggregations.go","pkg/core/advanced_search.go","pkg/cortexdb/cortexdb.go"],
 [("collection condition as a conjunct of the statement, or an in-memory comparison before a row is kept","pkg/core/*search*.go, aggregations.go")])
prop("D01","Batch writes are all-or-nothing",
 "Every writing operation of the vector store and the graph store (single and batch writes of embeddings, documents, chat rows, graph nodes and edges and multi-vector entities, batch and filtered deletions, collection creation and deletion) makes its rows durable in one unit: it reports success only after everything was committed, and when a statement or the commit fails, or the process dies at any point, the database is left as it was. No transaction stays open and nothing is written around it. (Items a graph batch rejects are listed in its result and left out; bulk file imports proceed batch by batch; the composite document and memory operations of the cortexdb layer are not covered.)",
 ["fault_sequences","crash_points","inputs"],"failure of any single statement, or a crash, at any point of any batch operation",
 "Tests do not inject a failure into the n-th statement of a batch.",
 ["pkg/core/store_crud.go","pkg/core/collections.go","pkg/core/multi_vector.go","pkg/graph/graph_batch.go"],
 [("BeginTx / Rollback on every path / Commit before success","pkg/core, pkg/graph")])
prop("D02","A storage failure is never reported as success",
 "If a database call (statement, query, row scan, iteration over a result set, begin, prepare, commit) or the encoding of a value to be stored fails inside an exported operation of the vector store (pkg/core), the graph store (pkg/graph) or the database API (pkg/cortexdb), that operation returns a non-nil error or records the failure in its result (failed count or error list); it never returns a complete-looking but partial result, and never takes a failed lookup for 'does not exist'. Only an unreadable row, a malformed full-text query and maintenance of the index-snapshot or quantizer cache may be skipped, and then only with a logged warning.",
 ["fault_sequences"],"failure of any one database call at any point of any exported operation of the store, the graph store and the database API",
 "Tests never make the database fail in the middle of an iteration or on the second statement.",
 ["pkg/core/store_query.go","pkg/core/store_search.go","pkg/core/chat.go","pkg/graph/graph.go","pkg/graph/graph_algorithms.go","pkg/graph/graph_export.go"],
 [("error propagation, rows.Err after iteration","all database call sites in pkg/core and pkg/graph")])
prop("D03","Result sets, statements, transactions and files are released on every path",
 "Every result set, prepared statement, transaction, file and database handle an operation opens is closed (or committed/rolled back) on every path out of the operation, including error returns, unless it is handed to the caller.",
 ["fault_sequences","inputs"],"every path through every exported function",
 "A leak on an error path only shows after the connection pool is exhausted.",
 ["pkg/core","pkg/graph","pkg/cortexdb"],
 [("defer Close / Rollback","all acquisitions in pkg/")])
prop("X01","Cancelling an operation's context reaches everything it started",
 "Every database call, embedder or model call and nested store operation made on behalf of an operation that was given a context gets that context or one derived from it: no helper on the way replaces it by a fresh, uncancellable one, drops it, or uses the context-less variant of a database call. (Background work that deliberately outlives the call, and which the call does not wait for, is exempt.)",
 ["inputs","schedules"],"every call path from every operation that takes a context, and every moment of cancellation",
 "Tests pass context.Background(), for which a dropped context makes no difference; the moment of cancellation cannot be enumerated.",
 ["pkg/core","pkg/graph","pkg/cortexdb","pkg/hindsight","pkg/semantic-router"],
 [("ctx passed to QueryContext, ExecContext, BeginTx, Embed and nested operations","all packages")])
prop("F01","The full-text index and dependent rows follow their parent rows",
 "After any sequence of inserts, updates, upserts, deletes and imports, the full-text tables contain exactly the current text of the rows they index (old text of an updated or deleted embedding or message is never found again), and deleting a document, collection, session or graph node removes every row that refers to it: embeddings, messages and edges never outlive the row they refer to, on whichever pooled connection the deletion runs.",
 ["histories","inputs","schedules"],"every sequence of writes and every pooled connection",
 "Tests write each row once and use one connection; a stale entry needs an update followed by a reuse of the row number, an orphan needs the right connection.",
 ["pkg/core/store_init.go","pkg/graph/graph.go","pkg/core/store_crud.go","pkg/core/multi_vector.go"],
 [("full-text triggers, foreign keys with cascade, per-connection pragmas","createTables, graph InitSchema, Init (DSN)")])
prop("R01","What is stored is what is read back, field by field",
 "For every record kind (embeddings, documents, collections, sessions, messages, memories, graph nodes and edges), each field written is read back as the same field: writing stores every field the table has a column for, in its own column; writing again under the same key replaces every one of them; reading builds records in which every stored column lands in the field it was stored from, none swapped and none left out; and a record dumped and loaded again comes back with all of them, its access list included.",
 ["inputs","histories"],"every record, including fields the tests leave empty or equal",
 "A swapped or dropped column shows only for records in which exactly those fields are set and differ; tests set a few fields and compare fewer.",
 ["pkg/core/store_crud.go","pkg/core/store_query.go","pkg/core/store_search.go","pkg/core/chat.go","pkg/core/document.go","pkg/core/collections.go","pkg/core/io.go","pkg/core/multi_vector.go","pkg/graph/graph.go","pkg/graph/graph_batch.go","pkg/cortexdb/memory_api.go"],
 [("column lists, bound arguments, conflict clauses and Scan destinations","Upsert, UpsertBatch, scanEmbedding, scanEmbeddingForGet, AddMessage, GetSessionHistory, CreateDocument, GetDocument, UpsertNode, UpsertEdge, GetEdges, getAllEmbeddings")])
prop("I01","The vector indexes always agree with the stored rows",
 "Whenever an operation that stores, replaces or deletes embeddings or graph nodes reports success - singly, in batches, by filter, by document, by collection or through cascading deletes - the in-memory vector indexes in use (HNSW, IVF, the graph's HNSW) hold exactly the new versions of the rows it stored and no entry for the rows it deleted; an operation that fails before changing a row leaves the indexes as they were; and an index snapshot kept in the database never outlives a change of the rows it was made from, so that nothing is missing or resurrected after a crash.",
 ["histories","crash-points"],"every operation, index configuration and path through it, every crash point between a change and the next snapshot",
 "A stale or missing index entry shows only in a search after a particular sequence of operations under a particular index configuration; most tests run with few rows, one configuration and no crash.",
 ["pkg/core/store_crud.go","pkg/core/document.go","pkg/core/collections.go","pkg/core/multi_vector.go","pkg/core/store_index.go","pkg/core/store_init.go","pkg/graph/graph.go","pkg/graph/graph_batch.go","pkg/graph/graph_hnsw.go"],
 [("index maintenance","indexVector, removeFromIndexes, Upsert, UpsertBatch, Delete*, Clear*, DeleteDocument, DeleteCollection, UpsertMultiVector, UpsertNode, DeleteNode, UpsertNodesBatch, DeleteNodesBatch, ExecuteBatch"),("snapshot triggers","schema DDL")])
prop("S03","An operation addressed to one owner touches only that owner's rows",
 "An operation addressed to one record, document, collection, session, user, multi-vector entity, graph node or edge, or memory bucket (or to a list of ids) reads, changes and deletes rows of exactly those it was addressed to, whatever the values contain: a user's message search returns only that user's messages and none of the session it was asked to leave out, a memory search or save for one owner and namespace never reaches the bucket of another pair, deleting one entity leaves the others', and a search under access control returns only rows that are public or whose access list names one of the caller's identities.",
 ["inputs","histories"],"every identifier, owner, namespace and access-list value, every content of the database and every path through the operation",
 "Leakage shows only with particular neighbouring rows or with names that contain a separator; tests use one or two owners with plain names.",
 ["pkg/core/chat.go","pkg/core/store_crud.go","pkg/core/document.go","pkg/core/collections.go","pkg/core/multi_vector.go","pkg/core/advanced_search.go","pkg/core/advanced_filter.go","pkg/graph/graph.go","pkg/graph/graph_batch.go","pkg/cortexdb/memory_api.go"],
 [("addressed operations","GetByID, Delete, GetByDocID, DeleteByDocID, DeleteBatch, ClearByDocID, GetDocument, UpdateDocument, DeleteDocument, ListDocumentsWithFilter, GetCollection, DeleteCollection, GetSession, GetSessionHistory, SearchChatHistory, KeywordSearchMessages, SearchMessagesByUser, *MultiVectorEntity, GetNode, DeleteNode, GetEdges, DeleteEdge, *Batch of graph, *Memory, GetKnowledge"),("memory bucket key","resolveMemoryBucket, memoryKeyEscaper"),("access control","SearchWithACL, fetchCandidatesWithSQL")])
prop("S04","Search results satisfy the metadata filter",
 "Every row answered to a search, recommendation, range, diversity, multi-vector, hybrid, faceted or access-controlled query with a metadata filter, and every row counted by an aggregation with filters, satisfies each entry of the filter (the stored value equals the one asked for), whichever index or fallback served the query; a recall from one memory bank answers only with memories of that bank, and no metadata given by a caller can change the entries by which rows are told apart (bank, memory type, entity, vector field).",
 ["inputs","configurations"],"every filter and stored metadata, every index configuration and fallback path",
 "A filter that one path (an index, a fallback, a text match, an absent key) does not apply shows only with rows that path alone lets through; tests check one filter on one path.",
 ["pkg/core/store_search.go","pkg/core/advanced_search.go","pkg/core/advanced_filter.go","pkg/core/faceted_search.go","pkg/core/aggregations.go","pkg/core/multi_vector.go","pkg/hindsight/hindsight.go"],
 [("filter application","matchesFilter, filterByMetadata, compareMetadataValues, buildSearchQuery, fetchCandidates, processCandidates, fetchCandidatesWithSQL, fetchCandidatesWithFacets, addMetadataFilters"),("bank isolation","semanticSearch, keywordSearch, temporalSearch, entitySearch, GetObservations, buildMetadata")])
prop("Q01","Searches answer with at most the limit, best first, none below the threshold",
 "For every query, data set, limit and index configuration, a search, recommendation, recall, range, diversity, reranked, aggregated or batched query that takes a limit (TopK, Limit, k) answers with at most that many results; scored results come best first (highest score, or lowest distance where results carry distances); no result scores below the threshold given; a score computed from a full-text rank grows with the match; and candidates are cut off only after they have been ranked by the score they are answered with, so that a better candidate is never dropped for a worse one that happened to be read earlier; a limit left out (zero) in the options means a default or everything, never nothing.",
 ["inputs","configurations"],"every stored data set, limit, threshold, index configuration and fallback path",
 "A cut before ranking, or an unsorted or over-long answer on one fallback path, shows only with more candidates than the limit arriving in an unfavourable order; tests use a handful of rows whose order is favourable.",
 ["pkg/core/store_search.go","pkg/core/advanced_search.go","pkg/core/hybrid.go","pkg/core/streaming.go","pkg/core/faceted_search.go","pkg/core/multi_vector.go","pkg/core/aggregations.go","pkg/graph/search.go","pkg/index/hnsw.go","pkg/index/ivf.go","pkg/hindsight/hindsight.go","pkg/cortexdb/cortexdb.go"],
 [("ranking and cutting","Search, processCandidates, searchWithHNSW, RangeSearch, HybridSearch, reciprocalRankFusion, SearchWithACL, SearchWithAdvancedFilter, SearchMultiVector, StreamSearch, Recall"),("index answers","HNSW.Search, IVFIndex.Search, FlatIndex, LSHIndex.Search")])
prop("E01","Filter operators mean what they say, in memory and in SQL",
 "For every filter expression, stored metadata and value, the operators of metadata filters and facet filters have their defined meaning, wherever they are evaluated: =, !=, <, <=, >, >= select exactly the stored values in that relation to the value given (numbers compared as numbers), BETWEEN and range include both bounds and nothing outside them, IN selects exactly the listed values, LIKE takes all characters but % and _ literally, prefix and contains bind the pattern with the wildcard on the right side, exists asks for presence, AND needs every operand, OR any, NOT negates; a missing field satisfies none of them but !=. Filters built with the MetadataFilter methods or parsed from text denote the operator of that name over the field and value given, and adding a condition to a filter narrows it (AND) without losing the earlier ones.",
 ["inputs"],"every operator, operand, stored value and nesting",
 "A strict instead of an inclusive bound, a text comparison of numbers or an operator dropped on one of the evaluation routes changes results only for boundary values and mixed types; tests use a few values in the middle.",
 ["pkg/core/advanced_filter.go","pkg/core/faceted_search.go"],
 [("in memory","evaluateFilter, compareValues, toFloat64"),("in SQL","filterSQL, BuildSQLFromFilter, buildFilterCondition, buildNestedCondition"),("building","MetadataFilter methods, parseComparison")])
prop("A01","What callers pass in stays theirs, and what they get back is their own",
 "For every operation of every stateful object (stores, vector, graph and geo indexes, quantizers, routers, encoders, embedder caches, memory systems): the slices, maps and plain records a caller passes in are neither kept (the object works on its own copy, so that a buffer reused or changed by the caller afterwards does not change stored vectors, metadata or settings) nor have their elements overwritten; and the slices, maps and plain records that are returned are copies, so that changing them does not change the object. Builders that are put together by chained calls are their caller's own and exempt.",
 ["inputs","histories","schedules"],"every operation, every later change of the arguments or results by the caller",
 "A kept slice shows only when the caller reuses its buffer after the call, as embedding loops do, and then as silently wrong neighbours or a data race; tests pass fresh literals.",
 ["pkg/index","pkg/geo/geospatial.go","pkg/graph/graph_hnsw.go","pkg/core/streaming.go","pkg/core/store_index.go","pkg/hindsight/hindsight.go","pkg/semantic-router","pkg/quantization"],
 [("kept","HNSW.Insert, InsertBatch, IVFIndex.Add, LSHIndex.Insert, FlatIndex.Insert, SimpleHNSW.Add, GeoIndex.Insert, IncrementalIndex.AddAsync, CreateBank, CachedEmbedder"),("handed out","FlatIndex.GetVector, GeoIndex.GetPoint and searches, GetBank, ListBanks, Vocabulary, CachedEmbedder.Embed")])
prop("T01","Offered tools can be called, by name and over MCP, with the inputs announced",
 "For every tool in the toolbox's Definitions: Call dispatches its name, the MCP server registers it under the same name, and both run the same toolbox method, one method per tool, handing on the caller's request and the method's response and error; no name is dispatched or registered that is not defined, and none is defined twice. The input schema announces exactly the fields the request decodes (same JSON names at every level, JSON types that the field's Go type accepts), marks as required exactly the fields that the request type makes mandatory, and every field a tool takes is read by what the tool runs, so no input is silently ignored.",
 ["inputs"],"every tool, every field of every request, at every nesting level",
 "An agent discovers the tools through their schemas: a misnamed, mistyped or unread field is accepted and silently dropped, and a tool missing from one of three hand-kept lists fails only when an agent picks it. Tests call a few tools with a few fields, mostly through the Go methods.",
 ["pkg/cortexdb/graphrag_tools.go","pkg/cortexdb/knowledge_memory_tooldefs.go","pkg/cortexdb/mcp.go","pkg/cortexdb/knowledge_api.go","pkg/cortexdb/memory_api.go"],
 [("defined","GraphRAGToolbox.Definitions, knowledgeMemoryToolDefinitions"),("dispatched","GraphRAGToolbox.Call"),("registered","DB.NewMCPServer")])
prop("G01","Goroutines end, waits return, and channels never block or crash the program",
 "For every goroutine the library starts (parallel embedding, recall strategies, parallel index building, streaming searches and their merging, incremental updates, automatic retention) and every schedule: a goroutine counted in a wait group is counted before it starts and reports done exactly once on every path, and operations that start workers return only after them, or leave the wait to a goroutine that closes their channel; no send waits for ever (the buffer holds every value, the starter takes them all, or a context, time limit or default ends it); a receiver never waits for a value or a close that does not come, and a stream handed to a caller is closed on every path of its producer; a channel is closed once and never sent to afterwards; loops of goroutines end when their channel is closed or their context ends; and Close of an object with background work returns only when that work is over, updates accepted before are stored by then.",
 ["schedules","histories"],"all schedules, cancellations, failures and early-leaving receivers",
 "A leaked goroutine, a send on a closed channel or a wait that never returns needs a cancelled context, a failing item or a reader that stops early at the wrong moment; tests read streams to the end.",
 ["pkg/core/streaming.go","pkg/cortexdb/embedder.go","pkg/hindsight/hindsight.go","pkg/hindsight/chat.go","pkg/index/multi_index.go","pkg/index/hnsw.go"],
 [("streams","StreamSearch, MergeStreamResults, CollectTopKFromStream, ParallelStreamSearch"),("workers","BatchEmbedder, Recall, MultiIndex.Insert, InsertBatchParallel"),("background","IncrementalIndex, hindsight AddMessage, Close")])
prop("V01","Vectors of different dimension are never compared or read out of range",
 "For every combination of vectors, queries and codes: similarity and distance functions, the flat, LSH, IVF and HNSW indexes, the scalar, binary and product quantizers, dimension adaptation and score fusion read a vector only within its own length, and two vectors are compared element by element only when their lengths were found equal. An index or quantizer made for one dimension accepts, trains on, encodes, decodes and searches only vectors and codes of that length: any other is rejected with an error or left out, never truncated, padded or read past its end, and never panics.",
 ["inputs"],"all vectors, queries, codes and training sets, of any length",
 "A collection may hold vectors of several dimensions by design; a missing length check is a panic or a silently wrong score only for the one odd vector, in the one index or quantizer that lacks it.",
 ["pkg/core/similarity.go","pkg/core/dimension.go","pkg/index/hnsw.go","pkg/index/flat.go","pkg/index/lsh.go","pkg/index/ivf.go","pkg/quantization/product_quantization.go","pkg/quantization/scalar_quantization.go"],
 [("kernels","cosineSimilarity, dotProduct, euclideanDistance and the index distances"),("indexes","Insert, BatchInsert, Add, Train, Search of FlatIndex, LSHIndex, IVFIndex"),("quantizers","Train, Encode, Decode, ComputeDistance, SearchPQ")])

prop("N01","Approximate indexes find nearly all true nearest neighbours",
 "For every data set and insertion/deletion history, HNSW, IVF, LSH and the graph's SimpleHNSW answer a k-nearest query with a recall close to the exact scan's at the configured effort, and every stored vector stays reachable.",
 ["inputs","histories"],"every data set, insertion order, deletion history and parameter setting",
 "Recall depends on the whole data distribution and on the random level draws; a test samples one distribution.",
 ["pkg/index/hnsw.go","pkg/index/ivf.go","pkg/index/lsh.go","pkg/graph/graph_hnsw.go"],[("indexes","HNSW.Search, IVFIndex.Search, LSHIndex.Search, SimpleHNSW.Search")])
prop("N02","A reported commit survives power loss",
 "Once a writing operation has returned success, its rows are on stable storage: neither a crash of the machine nor loss of power undoes them, and the database file is never corrupted.",
 ["crash points"],"every instant of a power loss",
 "It is decided below the driver, by SQLite's journal and the operating system's fsync, which tests do not interrupt.",
 ["pkg/core/store.go","pkg/core/store_init.go"],[("connection","journal mode and synchronous pragmas")])
prop("N03","Quantised vectors stay within their error bound",
 "For every trained quantizer and every vector in the training range, decoding an encoded vector returns each component within the quantisation step, and distances on codes order neighbours as the exact distances do up to that error.",
 ["inputs"],"every training set and vector",
 "The error depends on floating-point ranges of the training set.",
 ["pkg/quantization"],[("quantizers","ScalarQuantizer, BinaryQuantizer, ProductQuantizer")])
prop("N04","Graph measures converge to their definition",
 "PageRank, community detection, link prediction and shortest paths return the values their definitions give, for every graph, within the documented tolerance and number of iterations.",
 ["inputs"],"every graph",
 "The results are numeric fixpoints over the whole graph.",
 ["pkg/graph/graph_algorithms.go"],[("algorithms","PageRank, CommunityDetection, PredictEdges, ShortestPath")])
prop("N05","Concurrent operations take effect in one order consistent with real time",
 "For every concurrent history of upserts, deletes and searches on one store, there is one sequential order, consistent with the real-time order of the calls, that explains all answers.",
 ["schedules","histories"],"every concurrent history",
 "It is a property of whole histories; the lock discipline, atomic units and index agreement it rests on are C01, C02, D01 and I01.",
 ["pkg/core","pkg/graph"],[("operations","SQLiteStore and GraphStore methods")])
prop("N06","Geographic searches find exactly the points in the area",
 "For every set of points and every centre, radius, box or polygon, including areas that touch the poles or the date line, the geo index answers with exactly the points inside, with their great-circle distance.",
 ["inputs"],"every coordinate, radius and polygon",
 "Correctness is a statement about trigonometric floating-point results against a grid.",
 ["pkg/geo/geospatial.go"],[("searches","SearchRadius, SearchBoundingBox, SearchPolygon, KNN")])
prop("N07","Similarity functions compute the measure they are named after",
 "Cosine, dot product and Euclidean scores equal their mathematical definition up to rounding, are symmetric, and never produce NaN for finite input.",
 ["inputs"],"every pair of finite vectors",
 "Rounding, overflow and NaN propagation range over all float32 values.",
 ["pkg/core/similarity.go","pkg/index"],[("kernels","CosineSimilarity, DotProduct, EuclideanDist")])
