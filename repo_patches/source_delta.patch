From 0840fc7936c71cf7e4310e8ad799ee63cd0bf0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:17 +0000
Subject: [PATCH 01/48] fix: do not re-acquire the store's read lock while
 holding it

A second RLock on the same goroutine deadlocks as soon as a writer queues
between the two. Internal callers now use unlocked helpers, and the closed
flag is read under the lock.
---
 pkg/core/advanced_search.go |  4 ++--
 pkg/core/collections.go     |  7 ++++++-
 pkg/core/io.go              |  7 +++++--
 pkg/core/multi_vector.go    |  2 +-
 pkg/core/reranker.go        |  9 ++-------
 pkg/core/store.go           |  5 +++++
 pkg/core/store_crud.go      |  4 ++--
 pkg/core/store_search.go    | 19 +++++++++----------
 8 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 10bbc35..75a693d 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -68,7 +68,7 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 	var vectorResults []ScoredEmbedding
 	var err error
 	if len(vectorQuery) > 0 {
-		vectorResults, err = s.Search(ctx, vectorQuery, opts.SearchOptions)
+		vectorResults, err = s.search(ctx, vectorQuery, opts.SearchOptions)
 		if err != nil {
 			return nil, fmt.Errorf("vector search failed: %w", err)
 		}
@@ -351,7 +351,7 @@ func (s *SQLiteStore) SearchWithDiversity(ctx context.Context, query []float32,
 	searchOpts := opts.SearchOptions
 	searchOpts.TopK = opts.TopK * 3 // Get 3x candidates for diversity selection
 	
-	candidates, err := s.Search(ctx, query, searchOpts)
+	candidates, err := s.search(ctx, query, searchOpts)
 	if err != nil {
 		return nil, wrapError("search_diversity", err)
 	}
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 5af01a8..965d34f 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -109,6 +109,11 @@ func (s *SQLiteStore) GetCollection(ctx context.Context, name string) (*Collecti
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	return s.getCollection(ctx, name)
+}
+
+// getCollection is GetCollection for callers that already hold s.mu.
+func (s *SQLiteStore) getCollection(ctx context.Context, name string) (*Collection, error) {
 	if s.closed {
 		return nil, wrapError("get_collection", ErrStoreClosed)
 	}
@@ -273,7 +278,7 @@ func (s *SQLiteStore) GetCollectionStats(ctx context.Context, name string) (*Col
 	}
 
 	// First get collection info
-	collection, err := s.GetCollection(ctx, name)
+	collection, err := s.getCollection(ctx, name)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 1ce0fae..e872c5f 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -106,7 +106,7 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 	stats.TotalEmbeddings = len(embeddings)
 
 	// Get metadata
-	schemaStats, _ := s.Stats(ctx)
+	schemaStats, _ := s.stats(ctx)
 	stats.TotalDocuments = int(schemaStats.Count)
 
 	// Build export structure
@@ -252,7 +252,10 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 
 // Load imports embeddings from a reader
 func (s *SQLiteStore) Load(ctx context.Context, r io.Reader, opts LoadOptions) (*ImportStats, error) {
-	if s.closed {
+	s.mu.RLock()
+	closed := s.closed
+	s.mu.RUnlock()
+	if closed {
 		return nil, wrapError("load", ErrStoreClosed)
 	}
 
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 825dbca..a3bf0f1 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -150,7 +150,7 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		}
 		fieldOpts.Filter["_vector_field"] = fieldName
 		
-		results, err := s.Search(ctx, queryVector, fieldOpts)
+		results, err := s.search(ctx, queryVector, fieldOpts)
 		if err != nil {
 			continue
 		}
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index c52f54b..ffd4758 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -46,13 +46,8 @@ func DefaultRerankOptions() RerankOptions {
 
 // SearchWithReranker performs vector search and then reranks the results
 func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32, queryText string, reranker Reranker, opts RerankOptions) ([]ScoredEmbedding, error) {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
-	if s.closed {
-		return nil, wrapError("search_rerank", ErrStoreClosed)
-	}
-
+	// Search takes the store lock itself (and reports a closed store); holding it
+	// here as well would re-acquire it and keep it across the reranker callback.
 	if reranker == nil {
 		// No reranker, return normal search results
 		return s.Search(ctx, queryVec, SearchOptions{TopK: opts.TopK})
diff --git a/pkg/core/store.go b/pkg/core/store.go
index c589b7c..5aa4f87 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -108,6 +108,11 @@ func (s *SQLiteStore) Stats(ctx context.Context) (StoreStats, error) {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	return s.stats(ctx)
+}
+
+// stats is Stats for callers that already hold s.mu.
+func (s *SQLiteStore) stats(ctx context.Context) (StoreStats, error) {
 	if s.closed {
 		return StoreStats{}, wrapError("stats", ErrStoreClosed)
 	}
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index a74fab6..b82a209 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -92,7 +92,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	if collectionID == 0 {
 		// If no collection specified, use default or get by name
 		if emb.Collection != "" {
-			collection, err := s.GetCollection(ctx, emb.Collection)
+			collection, err := s.getCollection(ctx, emb.Collection)
 			if err != nil {
 				return wrapError("upsert", fmt.Errorf("collection '%s' not found: %w", emb.Collection, err))
 			}
@@ -233,7 +233,7 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		if collectionID == 0 {
 			// If no collection specified, use default or get by name
 			if emb.Collection != "" {
-				collection, err := s.GetCollection(ctx, emb.Collection)
+				collection, err := s.getCollection(ctx, emb.Collection)
 				if err != nil {
 					return wrapError("upsert_batch", fmt.Errorf("collection '%s' not found at index %d: %w", emb.Collection, i, err))
 				}
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 1c7d15d..9ec7e93 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -14,13 +14,18 @@ import (
 // Search performs vector similarity search
 func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
-	storeDim := s.config.VectorDim
-	s.mu.RUnlock()
+	defer s.mu.RUnlock()
+
+	return s.search(ctx, query, opts)
+}
 
+// search is Search for callers that already hold s.mu.
+func (s *SQLiteStore) search(ctx context.Context, query []float32, opts SearchOptions) ([]ScoredEmbedding, error) {
 	if s.closed {
 		return nil, wrapError("search", ErrStoreClosed)
 	}
 
+	storeDim := s.config.VectorDim
 	queryDim := len(query)
 
 	// Auto-adapt query vector if dimensions don't match
@@ -33,9 +38,6 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 		query = adaptedQuery
 	}
 
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
 	if err := s.validateSearchInput(query, opts); err != nil {
 		return nil, wrapError("search", err)
 	}
@@ -63,13 +65,13 @@ func (s *SQLiteStore) Search(ctx context.Context, query []float32, opts SearchOp
 // SearchWithFilter performs vector similarity search with advanced metadata filtering
 func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opts SearchOptions, metadataFilters map[string]interface{}) ([]ScoredEmbedding, error) {
 	s.mu.RLock()
-	storeDim := s.config.VectorDim
-	s.mu.RUnlock()
+	defer s.mu.RUnlock()
 
 	if s.closed {
 		return nil, wrapError("searchWithFilter", ErrStoreClosed)
 	}
 
+	storeDim := s.config.VectorDim
 	queryDim := len(query)
 
 	// Auto-adapt query vector if dimensions don't match
@@ -82,9 +84,6 @@ func (s *SQLiteStore) SearchWithFilter(ctx context.Context, query []float32, opt
 		query = adaptedQuery
 	}
 
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
 	if err := s.validateSearchInput(query, opts); err != nil {
 		return nil, wrapError("searchWithFilter", err)
 	}
-- 
2.43.0


From 05a7c106bbd4776b5ac1a7c1058c3e795d8ade19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:44 +0000
Subject: [PATCH 02/48] fix: synchronise quantizer training, auto-save,
 streaming and GetDB with Close

Training mutated the quantizer without (or under the shared) lock while
searches read it; auto-save and the streaming goroutine used the database
without the lock and could run after Close; Upsert read the closed flag
unlocked.
---
 pkg/core/store.go       |  2 +
 pkg/core/store_close.go |  7 ++++
 pkg/core/store_crud.go  | 52 +++++-------------------
 pkg/core/store_index.go | 90 +++++++++++++++++++++++++++++++++++++++--
 pkg/core/streaming.go   | 12 +++---
 5 files changed, 111 insertions(+), 52 deletions(-)

diff --git a/pkg/core/store.go b/pkg/core/store.go
index 5aa4f87..cf08385 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -88,6 +88,8 @@ func (s *SQLiteStore) SetAutoDimAdapt(policy AdaptPolicy) {
 
 // GetDB returns the underlying database connection
 func (s *SQLiteStore) GetDB() *sql.DB {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	return s.db
 }
 
diff --git a/pkg/core/store_close.go b/pkg/core/store_close.go
index 86ddcc2..1ee28d1 100644
--- a/pkg/core/store_close.go
+++ b/pkg/core/store_close.go
@@ -26,6 +26,13 @@ func (s *SQLiteStore) Close() error {
 
 	s.closed = true
 
+	// Stop the auto-save timer: there is nothing left to save to
+	s.saveMu.Lock()
+	if s.saveTimer != nil {
+		s.saveTimer.Stop()
+	}
+	s.saveMu.Unlock()
+
 	if s.db != nil {
 		if err := s.db.Close(); err != nil {
 			return err
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index b82a209..5bf97a3 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -15,9 +15,10 @@ import (
 func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	currentDim := s.config.VectorDim
+	closed := s.closed
 	s.mu.RUnlock()
 
-	if s.closed {
+	if closed {
 		return wrapError("upsert", ErrStoreClosed)
 	}
 
@@ -53,20 +54,7 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	}
 
 	// Auto-train quantizer if not trained
-	if s.quantizer != nil {
-		trained := false
-		if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-			trained = sq.Trained
-		} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-			trained = bq.Trained
-		}
-
-		if !trained {
-			if err := s.TrainQuantizer(ctx); err != nil {
-				s.logger.Warn("failed to auto-train quantizer", "error", err)
-			}
-		}
-	}
+	s.autoTrainQuantizer(ctx)
 
 	// Handle dimension mismatch
 	if incomingDim != currentDim {
@@ -87,6 +75,11 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	// The store may have been closed since the lock was last held
+	if s.closed {
+		return wrapError("upsert", ErrStoreClosed)
+	}
+
 	// Determine collection ID
 	collectionID := emb.CollectionID
 	if collectionID == 0 {
@@ -159,6 +152,8 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 
 // UpsertBatch inserts or updates multiple embeddings in a transaction
 func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error {
+	s.trainQuantizerOnBatch(embs)
+
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
@@ -170,33 +165,6 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 		return nil
 	}
 
-	// Auto-train quantizer if not trained
-	if s.quantizer != nil {
-		trained := false
-		if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-			trained = sq.Trained
-		} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-			trained = bq.Trained
-		}
-
-		if !trained {
-			// Extract some vectors for training
-			var trainingVectors [][]float32
-			for i := 0; i < len(embs) && i < 1000; i++ {
-				trainingVectors = append(trainingVectors, embs[i].Vector)
-			}
-			if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
-				if err := sq.Train(trainingVectors); err != nil {
-					s.logger.Warn("failed to train scalar quantizer during batch upsert", "error", err)
-				}
-			} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
-				if err := bq.Train(trainingVectors); err != nil {
-					s.logger.Warn("failed to train binary quantizer during batch upsert", "error", err)
-				}
-			}
-		}
-	}
-
 	// Start transaction
 	tx, err := s.db.BeginTx(ctx, nil)
 	if err != nil {
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index cfcbb15..a35f31a 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -62,7 +62,7 @@ func (s *SQLiteStore) initHNSWIndex(ctx context.Context) error {
 
 	// If quantization enabled but not loaded from snapshot, we need to train it before rebuilding
 	if s.quantizer != nil && !loaded {
-		if err := s.TrainQuantizer(ctx); err != nil {
+		if err := s.trainQuantizer(ctx); err != nil {
 			s.logger.Warn("failed to train quantizer", "error", err)
 		}
 	}
@@ -309,6 +309,85 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 
 // TrainQuantizer trains the quantizer on existing vectors
 func (s *SQLiteStore) TrainQuantizer(ctx context.Context) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed {
+		return wrapError("train_quantizer", ErrStoreClosed)
+	}
+
+	return s.trainQuantizer(ctx)
+}
+
+// quantizerUntrained reports whether there is a quantizer that still needs
+// training. The caller holds s.mu.
+func (s *SQLiteStore) quantizerUntrained() bool {
+	if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
+		return !sq.Trained
+	}
+	if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
+		return !bq.Trained
+	}
+	return s.quantizer != nil
+}
+
+// autoTrainQuantizer trains an untrained quantizer on the stored vectors.
+// Training rewrites state that searches read, so it needs the write lock.
+func (s *SQLiteStore) autoTrainQuantizer(ctx context.Context) {
+	s.mu.RLock()
+	untrained := s.quantizerUntrained()
+	s.mu.RUnlock()
+	if !untrained {
+		return
+	}
+
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed || !s.quantizerUntrained() {
+		return
+	}
+	if err := s.trainQuantizer(ctx); err != nil {
+		s.logger.Warn("failed to auto-train quantizer", "error", err)
+	}
+}
+
+// trainQuantizerOnBatch trains an untrained quantizer on the vectors of a batch.
+func (s *SQLiteStore) trainQuantizerOnBatch(embs []*Embedding) {
+	if len(embs) == 0 {
+		return
+	}
+
+	s.mu.RLock()
+	untrained := s.quantizerUntrained()
+	s.mu.RUnlock()
+	if !untrained {
+		return
+	}
+
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed || !s.quantizerUntrained() {
+		return
+	}
+
+	var trainingVectors [][]float32
+	for i := 0; i < len(embs) && i < 1000; i++ {
+		trainingVectors = append(trainingVectors, embs[i].Vector)
+	}
+	if sq, ok := s.quantizer.(*quantization.ScalarQuantizer); ok {
+		if err := sq.Train(trainingVectors); err != nil {
+			s.logger.Warn("failed to train scalar quantizer during batch upsert", "error", err)
+		}
+	} else if bq, ok := s.quantizer.(*quantization.BinaryQuantizer); ok {
+		if err := bq.Train(trainingVectors); err != nil {
+			s.logger.Warn("failed to train binary quantizer during batch upsert", "error", err)
+		}
+	}
+}
+
+// trainQuantizer trains the quantizer on existing vectors. The caller holds
+// s.mu for writing.
+func (s *SQLiteStore) trainQuantizer(ctx context.Context) error {
 	if s.quantizer == nil {
 		return nil
 	}
@@ -469,19 +548,22 @@ func (s *SQLiteStore) startAutoSave() {
 		interval = 5 * time.Minute // Default 5 minutes
 	}
 
+	s.saveMu.Lock()
 	s.saveTimer = time.AfterFunc(interval, func() {
 		s.autoSaveLoop()
 	})
+	s.saveMu.Unlock()
 	s.logger.Info("auto-save started", "interval", interval)
 }
 
 // autoSaveLoop runs the periodic save loop
 func (s *SQLiteStore) autoSaveLoop() {
+	// Hold the lock until the next save is scheduled, so that Close cannot
+	// release the database in between.
 	s.mu.RLock()
-	closed := s.closed
-	s.mu.RUnlock()
+	defer s.mu.RUnlock()
 
-	if closed {
+	if s.closed {
 		return
 	}
 
diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index c55c19e..111fb10 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -42,6 +42,12 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 		opts.MaxLatency = 100 * time.Millisecond
 	}
 	
+	// Get all candidates while the store is known to be open
+	candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
+	if err != nil {
+		return nil, wrapError("stream_search", err)
+	}
+
 	// Create result channel
 	resultChan := make(chan StreamingResult, opts.BatchSize)
 	
@@ -49,12 +55,6 @@ func (s *SQLiteStore) StreamSearch(ctx context.Context, query []float32, opts St
 	go func() {
 		defer close(resultChan)
 		
-		// Get all candidates
-		candidates, err := s.fetchCandidates(ctx, opts.SearchOptions)
-		if err != nil {
-			return
-		}
-		
 		// Process in batches
 		batchID := 0
 		totalCandidates := len(candidates)
-- 
2.43.0


From df32a38f089238a6c8883c369c616a80fdb6cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:28 +0000
Subject: [PATCH 03/48] fix: guard index, router and embedder state that was
 accessed without a lock

IVFIndex.Train/Delete/Size, the HNSW configuration read by parallel insert
workers, GraphStore.hnswIndex, CachedEmbedder.cache, HybridRouter.alpha and
the sparse routes were read or written without the lock that guards them.
IVFIndex.Delete also stopped renumbering a list at the deleted entry.
---
 pkg/graph/graph.go              | 19 ++++++++++++++-----
 pkg/graph/graph_hnsw.go         | 17 +++++++++++------
 pkg/graph/graph_hybrid.go       |  4 ++--
 pkg/index/hnsw.go               | 22 ++++++++++++++--------
 pkg/index/ivf.go                | 21 ++++++++++++++++-----
 pkg/semantic-router/embedder.go | 29 ++++++++++++++++++++++++-----
 pkg/semantic-router/hybrid.go   | 12 +++++++++---
 7 files changed, 90 insertions(+), 34 deletions(-)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index e6da873..f1eae2c 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -8,6 +8,7 @@ import (
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -78,9 +79,17 @@ type HybridResult struct {
 type GraphStore struct {
 	store     *core.SQLiteStore
 	db        *sql.DB
+	indexMu   sync.RWMutex    // guards hnswIndex
 	hnswIndex *HNSWGraphIndex // HNSW index for fast vector search
 }
 
+// vectorIndex returns the HNSW index, or nil when it is not enabled
+func (g *GraphStore) vectorIndex() *HNSWGraphIndex {
+	g.indexMu.RLock()
+	defer g.indexMu.RUnlock()
+	return g.hnswIndex
+}
+
 // NewGraphStore creates a new graph store from a SQLite store
 func NewGraphStore(s *core.SQLiteStore) *GraphStore {
 	return &GraphStore{
@@ -177,9 +186,9 @@ func (g *GraphStore) UpsertNode(ctx context.Context, node *GraphNode) error {
 		return err
 	}
 
-	if g.hnswIndex != nil {
-		g.hnswIndex.index.Remove(node.ID)
-		if err := g.hnswIndex.index.Add(node.ID, node.Vector); err != nil {
+	if idx := g.vectorIndex(); idx != nil {
+		idx.index.Remove(node.ID)
+		if err := idx.index.Add(node.ID, node.Vector); err != nil {
 			return fmt.Errorf("failed to update hnsw index: %w", err)
 		}
 	}
@@ -251,8 +260,8 @@ func (g *GraphStore) DeleteNode(ctx context.Context, nodeID string) error {
 		return fmt.Errorf("node not found: %s", nodeID)
 	}
 
-	if g.hnswIndex != nil {
-		g.hnswIndex.index.Remove(nodeID)
+	if idx := g.vectorIndex(); idx != nil {
+		idx.index.Remove(nodeID)
 	}
 
 	return nil
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 37a0435..92be327 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -297,9 +297,12 @@ func (h *SimpleHNSW) Remove(nodeID string) {
 
 // EnableHNSWIndex enables HNSW indexing for the graph store
 func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
-	g.hnswIndex = &HNSWGraphIndex{
+	idx := &HNSWGraphIndex{
 		index: NewSimpleHNSW(dimensions, 16),
 	}
+	g.indexMu.Lock()
+	g.hnswIndex = idx
+	g.indexMu.Unlock()
 	
 	// Index existing nodes with vectors
 	ctx := context.Background()
@@ -323,7 +326,7 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 			continue
 		}
 
-		_ = g.hnswIndex.index.Add(nodeID, vector)
+		_ = idx.index.Add(nodeID, vector)
 	}
 
 	return nil
@@ -331,11 +334,12 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 
 // HNSWSearch performs HNSW-accelerated vector search
 func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, threshold float64) ([]*HybridResult, error) {
-	if g.hnswIndex == nil {
+	idx := g.vectorIndex()
+	if idx == nil {
 		return nil, fmt.Errorf("HNSW index not enabled")
 	}
 
-	candidates := g.hnswIndex.index.Search(query, k*2)
+	candidates := idx.index.Search(query, k*2)
 	results := make([]*HybridResult, 0, k)
 
 	for _, candidate := range candidates {
@@ -360,13 +364,14 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 
 // HNSWHybridSearch combines HNSW search with graph proximity
 func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) ([]*HybridResult, error) {
-	if g.hnswIndex == nil {
+	idx := g.vectorIndex()
+	if idx == nil {
 		// Fall back to regular hybrid search
 		return g.HybridSearch(ctx, query)
 	}
 
 	// Get HNSW candidates
-	candidates := g.hnswIndex.index.Search(query.Vector, query.TopK*3)
+	candidates := idx.index.Search(query.Vector, query.TopK*3)
 	results := make([]*HybridResult, 0, query.TopK)
 
 	// Combine with graph scoring
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index fbc81a9..0822275 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -302,13 +302,13 @@ type graphDistance struct {
 }
 
 func (g *GraphStore) vectorCandidates(ctx context.Context, query *HybridQuery) ([]*GraphNode, error) {
-	if g.hnswIndex != nil && query.TopK > 0 {
+	if idx := g.vectorIndex(); idx != nil && query.TopK > 0 {
 		candidateLimit := query.TopK * 5
 		if candidateLimit < 50 {
 			candidateLimit = 50
 		}
 
-		candidates := g.hnswIndex.index.Search(query.Vector, candidateLimit)
+		candidates := idx.index.Search(query.Vector, candidateLimit)
 		nodeIDs := make([]string, 0, len(candidates))
 		for _, candidate := range candidates {
 			nodeIDs = append(nodeIDs, candidate.nodeID)
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 4c55f1f..603958b 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -764,6 +764,12 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 		return h.InsertBatch(vectors) // Too few vectors, use single-threaded
 	}
 
+	// The workers run without the lock, so they use a copy of the configuration
+	h.mu.RLock()
+	m, maxM, efConstruction, ml := h.M, h.MaxM, h.EfConstruction, h.ML
+	seed, distFunc, quantizer := h.Seed, h.DistFunc, h.Quantizer
+	h.mu.RUnlock()
+
 	type partialGraph struct {
 		nodes      map[string]*HNSWNode
 		entryPoint string
@@ -791,15 +797,15 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 
 			// Create a temporary HNSW for this chunk
 			tempHNSW := &HNSW{
-				M:              h.M,
-				MaxM:           h.MaxM,
-				EfConstruction: h.EfConstruction,
-				ML:             h.ML,
-				Seed:           h.Seed + int64(idx),
+				M:              m,
+				MaxM:           maxM,
+				EfConstruction: efConstruction,
+				ML:             ml,
+				Seed:           seed + int64(idx),
 				Nodes:          make(map[string]*HNSWNode),
-				DistFunc:       h.DistFunc,
-				Quantizer:      h.Quantizer,
-				rng:            rand.New(rand.NewSource(h.Seed + int64(idx))),
+				DistFunc:       distFunc,
+				Quantizer:      quantizer,
+				rng:            rand.New(rand.NewSource(seed + int64(idx))),
 			}
 
 			for _, v := range chunk {
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 6b37078..713625a 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -85,6 +85,9 @@ func (ivf *IVFIndex) Load(r io.Reader) error {
 
 // Train learns cluster centroids from training data
 func (ivf *IVFIndex) Train(vectors [][]float32) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+
 	if len(vectors) < ivf.NCentroids {
 		return fmt.Errorf("need at least %d vectors for training, got %d", ivf.NCentroids, len(vectors))
 	}
@@ -396,6 +399,9 @@ func min(a, b int) int {
 
 // Delete removes a vector from the index
 func (ivf *IVFIndex) Delete(id string) error {
+	ivf.mu.Lock()
+	defer ivf.mu.Unlock()
+
 	if !ivf.Trained {
 		return errors.New("index not trained")
 	}
@@ -423,15 +429,18 @@ func (ivf *IVFIndex) Delete(id string) error {
 	
 	// Remove from inverted lists
 	for i := range ivf.Invlists {
-		for j, idx := range ivf.Invlists[i] {
+		kept := ivf.Invlists[i][:0]
+		for _, idx := range ivf.Invlists[i] {
 			if idx == vectorIndex {
-				ivf.Invlists[i] = append(ivf.Invlists[i][:j], ivf.Invlists[i][j+1:]...)
-				break
-			} else if idx > vectorIndex {
+				continue
+			}
+			if idx > vectorIndex {
 				// Update indices after deletion
-				ivf.Invlists[i][j] = idx - 1
+				idx--
 			}
+			kept = append(kept, idx)
 		}
+		ivf.Invlists[i] = kept
 	}
 	
 	return nil
@@ -439,5 +448,7 @@ func (ivf *IVFIndex) Delete(id string) error {
 
 // Size returns the number of vectors in the index
 func (ivf *IVFIndex) Size() int {
+	ivf.mu.RLock()
+	defer ivf.mu.RUnlock()
 	return len(ivf.Vectors)
 }
\ No newline at end of file
diff --git a/pkg/semantic-router/embedder.go b/pkg/semantic-router/embedder.go
index 73ae939..33a6952 100644
--- a/pkg/semantic-router/embedder.go
+++ b/pkg/semantic-router/embedder.go
@@ -3,6 +3,7 @@ package semanticrouter
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // MockEmbedder is a simple embedder for testing purposes.
@@ -59,6 +60,7 @@ func (m *MockEmbedder) Dimensions() int {
 // CachedEmbedder wraps another embedder and caches results.
 type CachedEmbedder struct {
 	embedder Embedder
+	mu       sync.RWMutex // guards cache; not held while embedding
 	cache    map[string][]float32
 }
 
@@ -70,9 +72,22 @@ func NewCachedEmbedder(embedder Embedder) *CachedEmbedder {
 	}
 }
 
+func (c *CachedEmbedder) lookup(text string) ([]float32, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	vec, ok := c.cache[text]
+	return vec, ok
+}
+
+func (c *CachedEmbedder) remember(text string, vec []float32) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.cache[text] = vec
+}
+
 // Embed returns a cached embedding if available, otherwise computes and caches it.
 func (c *CachedEmbedder) Embed(ctx context.Context, text string) ([]float32, error) {
-	if vec, ok := c.cache[text]; ok {
+	if vec, ok := c.lookup(text); ok {
 		return vec, nil
 	}
 
@@ -81,7 +96,7 @@ func (c *CachedEmbedder) Embed(ctx context.Context, text string) ([]float32, err
 		return nil, err
 	}
 
-	c.cache[text] = vec
+	c.remember(text, vec)
 	return vec, nil
 }
 
@@ -92,7 +107,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 
 	// Check cache first
 	for i, text := range texts {
-		if vec, ok := c.cache[text]; ok {
+		if vec, ok := c.lookup(text); ok {
 			vectors[i] = vec
 		} else {
 			uncached[i] = text
@@ -117,7 +132,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 					return nil, fmt.Errorf("failed to embed %q: %w", text, err)
 				}
 				vectors[origIdx] = vec
-				c.cache[text] = vec
+				c.remember(text, vec)
 			}
 			return vectors, nil
 		}
@@ -125,7 +140,7 @@ func (c *CachedEmbedder) EmbedBatch(ctx context.Context, texts []string) ([][]fl
 		for batchIdx, vec := range batchVecs {
 			origIdx := indexMap[batchIdx]
 			vectors[origIdx] = vec
-			c.cache[uncachedTexts[batchIdx]] = vec
+			c.remember(uncachedTexts[batchIdx], vec)
 		}
 	}
 
@@ -139,10 +154,14 @@ func (c *CachedEmbedder) Dimensions() int {
 
 // ClearCache clears the embedding cache.
 func (c *CachedEmbedder) ClearCache() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.cache = make(map[string][]float32)
 }
 
 // CacheSize returns the number of cached embeddings.
 func (c *CachedEmbedder) CacheSize() int {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	return len(c.cache)
 }
diff --git a/pkg/semantic-router/hybrid.go b/pkg/semantic-router/hybrid.go
index 45b9ea7..86e73a3 100644
--- a/pkg/semantic-router/hybrid.go
+++ b/pkg/semantic-router/hybrid.go
@@ -17,6 +17,7 @@ type HybridRouter struct {
 	sparse      *SparseRouter
 	sparseMu    sync.RWMutex
 
+	alphaMu     sync.RWMutex
 	alpha       float64 // Weight for dense similarity (0-1)
 	threshold   float64
 
@@ -374,7 +375,8 @@ func (h *HybridRouter) Route(ctx context.Context, query string) (*HybridRouteRes
 	// Compute combined score
 	denseScore := denseResult.Score
 	sparseScore := sparseResult.Score
-	combinedScore := h.alpha*denseScore + (1-h.alpha)*sparseScore
+	alpha := h.GetAlpha()
+	combinedScore := alpha*denseScore + (1-alpha)*sparseScore
 
 	result := &HybridRouteResult{
 		RouteResult: RouteResult{
@@ -433,11 +435,15 @@ func (h *HybridRouter) List() []string {
 
 // GetAlpha returns the current alpha value.
 func (h *HybridRouter) GetAlpha() float64 {
+	h.alphaMu.RLock()
+	defer h.alphaMu.RUnlock()
 	return h.alpha
 }
 
 // SetAlpha updates the alpha weight.
 func (h *HybridRouter) SetAlpha(alpha float64) {
+	h.alphaMu.Lock()
+	defer h.alphaMu.Unlock()
 	h.alpha = alpha
 }
 
@@ -450,12 +456,12 @@ func (h *HybridRouter) Stats() map[string]interface{} {
 
 	denseStats := h.dense.Stats()
 	sparseStats := map[string]interface{}{
-		"route_count": len(h.sparse.routes),
+		"route_count": len(h.sparse.List()),
 		"threshold":   h.sparse.config.Threshold,
 	}
 
 	return map[string]interface{}{
-		"alpha":           h.alpha,
+		"alpha":           h.GetAlpha(),
 		"threshold":       h.threshold,
 		"dense_router":    denseStats,
 		"sparse_router":   sparseStats,
-- 
2.43.0


From 7ef99ed2455693ef70b2368d5c185ffa5175d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:30 +0000
Subject: [PATCH 04/48] fix: report marshal, scan and iteration failures in
 chat and collection reads

---
 pkg/core/chat.go        | 32 ++++++++++++++++++++++++--------
 pkg/core/collections.go |  3 +++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 6d75d17..4409a6c 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -39,13 +39,16 @@ func (s *SQLiteStore) CreateSession(ctx context.Context, session *Session) error
 		return wrapError("create_session", ErrStoreClosed)
 	}
 
-	metadataJSON, _ := json.Marshal(session.Metadata)
+	metadataJSON, err := json.Marshal(session.Metadata)
+	if err != nil {
+		return wrapError("create_session", fmt.Errorf("failed to marshal metadata: %w", err))
+	}
 
 	query := `
 		INSERT INTO sessions (id, user_id, metadata, created_at, updated_at)
 		VALUES (?, ?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`
-	_, err := s.db.ExecContext(ctx, query, session.ID, session.UserID, metadataJSON)
+	_, err = s.db.ExecContext(ctx, query, session.ID, session.UserID, metadataJSON)
 	return err
 }
 
@@ -83,11 +86,13 @@ func (s *SQLiteStore) AddMessage(ctx context.Context, msg *Message) error {
 		return wrapError("add_message", ErrStoreClosed)
 	}
 
-	metadataJSON, _ := json.Marshal(msg.Metadata)
+	metadataJSON, err := json.Marshal(msg.Metadata)
+	if err != nil {
+		return wrapError("add_message", fmt.Errorf("failed to marshal metadata: %w", err))
+	}
 
 	// Encode vector if present
 	var vectorBytes []byte
-	var err error
 	if len(msg.Vector) > 0 {
 		vectorBytes, err = encoding.EncodeVector(msg.Vector)
 		if err != nil {
@@ -134,7 +139,7 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 		var vectorBytes, metadataJSON []byte
 
 		if err := rows.Scan(&msg.ID, &msg.SessionID, &msg.Role, &msg.Content, &vectorBytes, &metadataJSON, &msg.CreatedAt); err != nil {
-			continue
+			return nil, wrapError("get_session_history", fmt.Errorf("failed to scan message: %w", err))
 		}
 
 		if len(vectorBytes) > 0 {
@@ -146,6 +151,9 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 
 		messages = append(messages, &msg)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("get_session_history", err)
+	}
 
 	// Reverse to return chronological order (oldest first)
 	for i, j := 0, len(messages)-1; i < j; i, j = i+1, j-1 {
@@ -186,7 +194,9 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 		var msg Message
 		var vectorBytes, metadataJSON []byte
 
-		rows.Scan(&msg.ID, &msg.SessionID, &msg.Role, &msg.Content, &vectorBytes, &metadataJSON, &msg.CreatedAt)
+		if err := rows.Scan(&msg.ID, &msg.SessionID, &msg.Role, &msg.Content, &vectorBytes, &metadataJSON, &msg.CreatedAt); err != nil {
+			return nil, wrapError("search_chat_history", fmt.Errorf("failed to scan message: %w", err))
+		}
 
 		if len(vectorBytes) > 0 {
 			msg.Vector, _ = encoding.DecodeVector(vectorBytes)
@@ -199,6 +209,9 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 			scored = append(scored, scoredMsg{msg: &msg, score: float32(score)})
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("search_chat_history", err)
+	}
 
 	// Sort by score
 	// Note: Implement simple sort
@@ -290,7 +303,7 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 		var msg Message
 		var vBytes, metaJSON []byte
 		if err := rows.Scan(&msg.ID, &msg.SessionID, &msg.Role, &msg.Content, &vBytes, &metaJSON, &msg.CreatedAt); err != nil {
-			continue
+			return nil, wrapError("search_messages_by_user", fmt.Errorf("failed to scan message: %w", err))
 		}
 		if len(vBytes) == 0 {
 			continue
@@ -305,6 +318,9 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 		}
 		results = append(results, scored{msg: &msg, score: float32(s.similarityFn(queryVec, vec))})
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("search_messages_by_user", err)
+	}
 
 	// Sort descending by score
 	for i := 0; i < len(results); i++ {
@@ -329,7 +345,7 @@ func scanMessages(rows *sql.Rows) ([]*Message, error) {
 		var msg Message
 		var vBytes, metaJSON []byte
 		if err := rows.Scan(&msg.ID, &msg.SessionID, &msg.Role, &msg.Content, &vBytes, &metaJSON, &msg.CreatedAt); err != nil {
-			continue
+			return nil, fmt.Errorf("failed to scan message: %w", err)
 		}
 		if len(vBytes) > 0 {
 			msg.Vector, _ = encoding.DecodeVector(vBytes)
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 965d34f..dd38d04 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -213,6 +213,9 @@ func (s *SQLiteStore) ListCollections(ctx context.Context) ([]*Collection, error
 
 		collections = append(collections, collection)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("list_collections", fmt.Errorf("failed to list collections: %w", err))
+	}
 
 	return collections, nil
 }
-- 
2.43.0


From 68245607042c5d11e3af166afec2b5ed6f47c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:30 +0000
Subject: [PATCH 05/48] fix: keep the HNSW and IVF indexes in step with every
 embedding write and delete

---
 pkg/core/document.go   |  27 +++--
 pkg/core/store_crud.go | 220 ++++++++++++++++++++++-------------------
 pkg/index/hnsw.go      |  29 +++++-
 3 files changed, 156 insertions(+), 120 deletions(-)

diff --git a/pkg/core/document.go b/pkg/core/document.go
index 990feb0..ee67b9c 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -102,24 +102,16 @@ func (s *SQLiteStore) DeleteDocument(ctx context.Context, id string) error {
 		return wrapError("delete_document", ErrStoreClosed)
 	}
 
+	var removed []string
+
 	// 1. Find all embedding IDs for this document to remove from HNSW index
 	// Note: SQLite FK CASCADE will handle the table rows, but we must manually update memory index
 	if s.hnswIndex != nil || s.ivfIndex != nil {
-		rows, err := s.db.QueryContext(ctx, "SELECT id FROM embeddings WHERE doc_id = ?", id)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var embID string
-				if err := rows.Scan(&embID); err == nil {
-					if s.hnswIndex != nil {
-						_ = s.hnswIndex.Delete(embID)
-					}
-					if s.ivfIndex != nil {
-						_ = s.ivfIndex.Delete(embID)
-					}
-				}
-			}
+		ids, err := s.embeddingIDs(ctx, s.db, "SELECT id FROM embeddings WHERE doc_id = ?", id)
+		if err != nil {
+			return wrapError("delete_document", err)
 		}
+		removed = ids
 	}
 
 	// 2. Delete document (Cascade will delete embeddings from DB)
@@ -128,6 +120,8 @@ func (s *SQLiteStore) DeleteDocument(ctx context.Context, id string) error {
 		return wrapError("delete_document", fmt.Errorf("failed to delete document: %w", err))
 	}
 
+	s.removeFromIndexes(removed)
+
 	return nil
 }
 
@@ -203,7 +197,7 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 		var doc Document
 		var metadataJSON, aclJSON []byte
 		if err := rows.Scan(&doc.ID, &doc.Title, &doc.SourceURL, &doc.Content, &doc.Version, &doc.Author, &metadataJSON, &aclJSON, &doc.CreatedAt, &doc.UpdatedAt); err != nil {
-			continue
+			return nil, wrapError("list_documents", fmt.Errorf("failed to scan document: %w", err))
 		}
 		if len(metadataJSON) > 0 {
 			_ = json.Unmarshal(metadataJSON, &doc.Metadata)
@@ -213,6 +207,9 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 		}
 		docs = append(docs, &doc)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("list_documents", err)
+	}
 
 	return docs, nil
 }
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 5bf97a3..a136740 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -133,19 +133,8 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 		return wrapError("upsert", fmt.Errorf("failed to insert embedding: %w", err))
 	}
 
-	// Update HNSW index if enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
-			s.logger.Warn("failed to insert vector into HNSW index", "id", emb.ID, "error", err)
-		}
-	}
-
-	// Update IVF index if enabled and trained
-	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
-		if err := s.ivfIndex.Add(emb.ID, emb.Vector); err != nil {
-			s.logger.Warn("failed to add vector to IVF index", "id", emb.ID, "error", err)
-		}
-	}
+	// Update the in-memory indexes
+	s.indexVector(emb.ID, emb.Vector)
 
 	return nil
 }
@@ -250,32 +239,9 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 
 	s.logger.Debug("batch upsert completed", "count", len(embs))
 
-	// Update HNSW index if enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		var errorCount int
-		for _, emb := range embs {
-			if err := s.hnswIndex.Insert(emb.ID, emb.Vector); err != nil {
-				s.logger.Warn("failed to insert vector into HNSW index during batch upsert", "id", emb.ID, "error", err)
-				errorCount++
-			}
-		}
-		if errorCount > 0 {
-			s.logger.Warn("some vectors failed to insert into HNSW index during batch upsert", "count", errorCount)
-		}
-	}
-
-	// Update IVF index if enabled and trained
-	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
-		var errorCount int
-		for _, emb := range embs {
-			if err := s.ivfIndex.Add(emb.ID, emb.Vector); err != nil {
-				s.logger.Warn("failed to add vector to IVF index during batch upsert", "id", emb.ID, "error", err)
-				errorCount++
-			}
-		}
-		if errorCount > 0 {
-			s.logger.Warn("some vectors failed to add to IVF index during batch upsert", "count", errorCount)
-		}
+	// Update the in-memory indexes
+	for _, emb := range embs {
+		s.indexVector(emb.ID, emb.Vector)
 	}
 
 	return nil
@@ -308,27 +274,16 @@ func (s *SQLiteStore) Delete(ctx context.Context, id string) error {
 		return wrapError("delete", ErrNotFound)
 	}
 
-	// Update HNSW index if enabled
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		if err := s.hnswIndex.Delete(id); err != nil {
-			s.logger.Warn("failed to delete vector from HNSW index", "id", id, "error", err)
-		}
-	}
-
-	// Update IVF index if enabled
-	if s.ivfIndex != nil {
-		if err := s.ivfIndex.Delete(id); err != nil {
-			s.logger.Warn("failed to delete vector from IVF index", "id", id, "error", err)
-		}
-	}
+	// Update the in-memory indexes
+	s.removeFromIndexes([]string{id})
 
 	return nil
 }
 
 // DeleteByDocID removes all embeddings for a document
 func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("delete_by_doc_id", ErrStoreClosed)
@@ -338,11 +293,18 @@ func (s *SQLiteStore) DeleteByDocID(ctx context.Context, docID string) error {
 		return wrapError("delete_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?", docID)
+	removed, err := s.embeddingIDs(ctx, s.db, "SELECT id FROM embeddings WHERE doc_id = ?", docID)
+	if err != nil {
+		return wrapError("delete_by_doc_id", err)
+	}
+
+	_, err = s.db.ExecContext(ctx, "DELETE FROM embeddings WHERE doc_id = ?", docID)
 	if err != nil {
 		return wrapError("delete_by_doc_id", fmt.Errorf("failed to delete embeddings: %w", err))
 	}
 
+	s.removeFromIndexes(removed)
+
 	return nil
 }
 
@@ -373,6 +335,12 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 
 	// 1. Delete from SQLite
 	// Use chunks to avoid SQLite parameter limit (default 999)
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return wrapError("delete_batch", fmt.Errorf("failed to begin transaction: %w", err))
+	}
+	defer func() { _ = tx.Rollback() }()
+
 	totalRowsAffected := int64(0)
 	chunkSize := 500
 	for i := 0; i < len(validIDs); i += chunkSize {
@@ -390,7 +358,7 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		}
 
 		query := fmt.Sprintf("DELETE FROM embeddings WHERE id IN (%s)", strings.Join(placeholders, ","))
-		result, err := s.db.ExecContext(ctx, query, args...)
+		result, err := tx.ExecContext(ctx, query, args...)
 		if err != nil {
 			return wrapError("delete_batch", fmt.Errorf("failed to delete chunk: %w", err))
 		}
@@ -403,26 +371,16 @@ func (s *SQLiteStore) DeleteBatch(ctx context.Context, ids []string) error {
 		}
 	}
 
+	if err := tx.Commit(); err != nil {
+		return wrapError("delete_batch", fmt.Errorf("failed to commit transaction: %w", err))
+	}
+
 	if totalRowsAffected == 0 {
 		return wrapError("delete_batch", ErrNotFound)
 	}
 
 	// 2. Delete from Memory Indexes
-	if s.hnswIndex != nil {
-		for _, id := range validIDs {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from HNSW index during batch delete", "id", id, "error", err)
-			}
-		}
-	}
-
-	if s.ivfIndex != nil {
-		for _, id := range validIDs {
-			if err := s.ivfIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from IVF index during batch delete", "id", id, "error", err)
-			}
-		}
-	}
+	s.removeFromIndexes(validIDs)
 
 	s.logger.Debug("batch delete completed", "deleted", totalRowsAffected)
 
@@ -450,20 +408,9 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 
 	// First, get the IDs that will be deleted (for index cleanup)
 	idQuery := fmt.Sprintf("SELECT id FROM embeddings WHERE %s", whereClause)
-	rows, err := s.db.QueryContext(ctx, idQuery, params...)
+	idsToDelete, err := s.embeddingIDs(ctx, s.db, idQuery, params...)
 	if err != nil {
-		return wrapError("delete_by_filter", fmt.Errorf("failed to query embeddings: %w", err))
-	}
-
-	var idsToDelete []string
-	for rows.Next() {
-		var id string
-		if err := rows.Scan(&id); err == nil {
-			idsToDelete = append(idsToDelete, id)
-		}
-	}
-	if closeErr := rows.Close(); closeErr != nil {
-		s.logger.Warn("failed to close rows during delete by filter", "error", closeErr)
+		return wrapError("delete_by_filter", err)
 	}
 
 	if len(idsToDelete) == 0 {
@@ -478,21 +425,7 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 	}
 
 	// Update Memory Indexes
-	if s.hnswIndex != nil {
-		for _, id := range idsToDelete {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from HNSW index during filter delete", "id", id, "error", err)
-			}
-		}
-	}
-
-	if s.ivfIndex != nil {
-		for _, id := range idsToDelete {
-			if err := s.ivfIndex.Delete(id); err != nil {
-				s.logger.Warn("failed to delete vector from IVF index during filter delete", "id", id, "error", err)
-			}
-		}
-	}
+	s.removeFromIndexes(idsToDelete)
 
 	s.logger.Debug("delete by filter completed", "deleted", len(idsToDelete))
 
@@ -501,18 +434,25 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 
 // Clear removes all embeddings from the store
 func (s *SQLiteStore) Clear(ctx context.Context) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("clear", ErrStoreClosed)
 	}
 
-	_, err := s.db.ExecContext(ctx, "DELETE FROM embeddings")
+	removed, err := s.embeddingIDs(ctx, s.db, "SELECT id FROM embeddings")
+	if err != nil {
+		return wrapError("clear", err)
+	}
+
+	_, err = s.db.ExecContext(ctx, "DELETE FROM embeddings")
 	if err != nil {
 		return wrapError("clear", fmt.Errorf("failed to clear embeddings: %w", err))
 	}
 
+	s.removeFromIndexes(removed)
+
 	s.logger.Info("cleared all embeddings")
 
 	return nil
@@ -520,8 +460,8 @@ func (s *SQLiteStore) Clear(ctx context.Context) error {
 
 // ClearByDocID removes all embeddings for specific document IDs
 func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return wrapError("clear_by_doc_id", ErrStoreClosed)
@@ -554,10 +494,16 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 	}()
 
 	// Execute deletion for each doc ID
+	var removed []string
 	for _, docID := range docIDs {
 		if docID == "" {
 			continue // Skip empty doc IDs
 		}
+		ids, err := s.embeddingIDs(ctx, tx, "SELECT id FROM embeddings WHERE doc_id = ?", docID)
+		if err != nil {
+			return wrapError("clear_by_doc_id", err)
+		}
+		removed = append(removed, ids...)
 		_, err = stmt.ExecContext(ctx, docID)
 		if err != nil {
 			return wrapError("clear_by_doc_id", fmt.Errorf("failed to delete embeddings for doc_id %s: %w", docID, err))
@@ -569,7 +515,73 @@ func (s *SQLiteStore) ClearByDocID(ctx context.Context, docIDs []string) error {
 		return wrapError("clear_by_doc_id", fmt.Errorf("failed to commit transaction: %w", err))
 	}
 
+	s.removeFromIndexes(removed)
+
 	s.logger.Debug("cleared embeddings by doc IDs", "count", len(docIDs))
 
 	return nil
 }
+
+// embeddingIDs returns the embedding IDs selected by a query
+func (s *SQLiteStore) embeddingIDs(ctx context.Context, q interface {
+	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
+}, query string, args ...interface{}) ([]string, error) {
+	rows, err := q.QueryContext(ctx, query, args...)
+	if err != nil {
+		return nil, fmt.Errorf("failed to query embeddings: %w", err)
+	}
+	defer func() { _ = rows.Close() }()
+
+	var ids []string
+	for rows.Next() {
+		var id string
+		if err := rows.Scan(&id); err != nil {
+			return nil, fmt.Errorf("failed to scan embedding ID: %w", err)
+		}
+		ids = append(ids, id)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("failed to query embeddings: %w", err)
+	}
+	return ids, nil
+}
+
+// indexVector makes the enabled in-memory indexes hold vector under id,
+// replacing an earlier version of it. The caller holds s.mu.
+func (s *SQLiteStore) indexVector(id string, vector []float32) {
+	// Update HNSW index if enabled
+	if s.config.HNSW.Enabled && s.hnswIndex != nil {
+		_ = s.hnswIndex.Delete(id) // not found is the normal case
+		if err := s.hnswIndex.Insert(id, vector); err != nil {
+			s.logger.Warn("failed to insert vector into HNSW index", "id", id, "error", err)
+		}
+	}
+
+	// Update IVF index if enabled and trained
+	if s.config.IndexType == IndexTypeIVF && s.ivfIndex != nil && s.ivfIndex.Trained {
+		_ = s.ivfIndex.Delete(id) // not found is the normal case
+		if err := s.ivfIndex.Add(id, vector); err != nil {
+			s.logger.Warn("failed to add vector to IVF index", "id", id, "error", err)
+		}
+	}
+}
+
+// removeFromIndexes removes deleted embeddings from the in-memory indexes.
+// The caller holds s.mu.
+func (s *SQLiteStore) removeFromIndexes(ids []string) {
+	if s.hnswIndex != nil {
+		for _, id := range ids {
+			if err := s.hnswIndex.Delete(id); err != nil {
+				s.logger.Debug("vector not removed from HNSW index", "id", id, "error", err)
+			}
+		}
+	}
+
+	if s.ivfIndex != nil {
+		for _, id := range ids {
+			if err := s.ivfIndex.Delete(id); err != nil {
+				s.logger.Debug("vector not removed from IVF index", "id", id, "error", err)
+			}
+		}
+	}
+}
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 603958b..fb566b6 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -175,7 +175,8 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	
-	if _, exists := h.Nodes[id]; exists {
+	old, exists := h.Nodes[id]
+	if exists && !old.Deleted {
 		return fmt.Errorf("node %s already exists", id)
 	}
 	
@@ -198,6 +199,22 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	
 	// Create new node
 	level := h.selectLevel()
+	if exists {
+		// The deleted node being replaced may still be linked from other nodes and
+		// may be the entry point, so its replacement must not be on fewer layers.
+		if old.Level > level {
+			level = old.Level
+		}
+		if h.EntryPoint == id {
+			h.EntryPoint = ""
+			for nodeID := range h.Nodes {
+				if nodeID != id {
+					h.EntryPoint = nodeID
+					break
+				}
+			}
+		}
+	}
 	node := &HNSWNode{
 		ID:        id,
 		Vector:    storedVector,
@@ -236,6 +253,16 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 		}
 		
 		candidates := h.searchLayer(vector, currNearest, h.EfConstruction, lc)
+		if exists {
+			// Links to the replaced node must not make the node its own neighbor
+			others := candidates[:0]
+			for _, candidate := range candidates {
+				if candidate != id {
+					others = append(others, candidate)
+				}
+			}
+			candidates = others
+		}
 		neighbors := h.selectNeighborsHeuristic(vector, candidates, m, lc)
 		
 		// Add bidirectional links
-- 
2.43.0


From c05ead6d4275eb0a88f4ecb9460146931b66e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:29 +0000
Subject: [PATCH 06/48] fix: report storage failures in dumps, facets,
 aggregations, stats and training

---
 pkg/core/aggregations.go   | 45 +++++++++++++++++++++++++-------------
 pkg/core/faceted_search.go | 18 +++++++++------
 pkg/core/io.go             | 39 ++++++++++++++++++++++++++-------
 pkg/core/store.go          |  2 +-
 pkg/core/store_index.go    | 13 +++++++++--
 pkg/core/store_query.go    |  3 +++
 6 files changed, 87 insertions(+), 33 deletions(-)

diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index 598ff25..6bc5992 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -88,10 +88,13 @@ func (s *SQLiteStore) aggregateCount(ctx context.Context, req AggregationRequest
 	}
 
 	// Add metadata filters
-	query, args = addMetadataFilters(query, args, req.Filters)
+	query, args, err := addMetadataFilters(query, args, req.Filters)
+	if err != nil {
+		return nil, err
+	}
 
 	var count int
-	err := s.db.QueryRowContext(ctx, query, args...).Scan(&count)
+	err = s.db.QueryRowContext(ctx, query, args...).Scan(&count)
 	if err != nil {
 		return nil, err
 	}
@@ -129,11 +132,14 @@ func (s *SQLiteStore) aggregateSum(ctx context.Context, req AggregationRequest)
 	}
 
 	// Add metadata filters
-	query, args = addMetadataFilters(query, args, req.Filters)
+	query, args, err := addMetadataFilters(query, args, req.Filters)
+	if err != nil {
+		return nil, err
+	}
 
 	var sumValue sql.NullFloat64
 	var count int
-	err := s.db.QueryRowContext(ctx, query, args...).Scan(&sumValue, &count)
+	err = s.db.QueryRowContext(ctx, query, args...).Scan(&sumValue, &count)
 	if err != nil {
 		return nil, err
 	}
@@ -175,11 +181,14 @@ func (s *SQLiteStore) aggregateAvg(ctx context.Context, req AggregationRequest)
 	}
 
 	// Add metadata filters
-	query, args = addMetadataFilters(query, args, req.Filters)
+	query, args, err := addMetadataFilters(query, args, req.Filters)
+	if err != nil {
+		return nil, err
+	}
 
 	var avgValue sql.NullFloat64
 	var count int
-	err := s.db.QueryRowContext(ctx, query, args...).Scan(&avgValue, &count)
+	err = s.db.QueryRowContext(ctx, query, args...).Scan(&avgValue, &count)
 	if err != nil {
 		return nil, err
 	}
@@ -226,11 +235,14 @@ func (s *SQLiteStore) aggregateMinMax(ctx context.Context, req AggregationReques
 	}
 
 	// Add metadata filters
-	query, args = addMetadataFilters(query, args, req.Filters)
+	query, args, err := addMetadataFilters(query, args, req.Filters)
+	if err != nil {
+		return nil, err
+	}
 
 	var value sql.NullFloat64
 	var count int
-	err := s.db.QueryRowContext(ctx, query, args...).Scan(&value, &count)
+	err = s.db.QueryRowContext(ctx, query, args...).Scan(&value, &count)
 	if err != nil {
 		return nil, err
 	}
@@ -301,7 +313,10 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	}
 
 	// Add metadata filters
-	query, args = addMetadataFilters(query, args, req.Filters)
+	query, args, err := addMetadataFilters(query, args, req.Filters)
+	if err != nil {
+		return nil, err
+	}
 
 	// Add GROUP BY clause
 	query += fmt.Sprintf(" GROUP BY %s", joinStrings(groupByClauses, ", "))
@@ -408,7 +423,7 @@ func validateAggregationRequest(req AggregationRequest) error {
 }
 
 // addMetadataFilters adds metadata filters to the query
-func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}) {
+func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}, error) {
 	for field, value := range filters {
 		query += fmt.Sprintf(" AND json_extract(metadata, '$.%s') = ?", field)
 		
@@ -428,14 +443,14 @@ func addMetadataFilters(query string, args []interface{}, filters map[string]int
 			}
 		default:
 			// Try to convert to JSON string
-			if jsonBytes, err := json.Marshal(v); err == nil {
-				args = append(args, string(jsonBytes))
-			} else {
-				args = append(args, fmt.Sprintf("%v", v))
+			jsonBytes, err := json.Marshal(v)
+			if err != nil {
+				return "", nil, fmt.Errorf("invalid value for filter %q: %w", field, err)
 			}
+			args = append(args, string(jsonBytes))
 		}
 	}
-	return query, args
+	return query, args, nil
 }
 
 // joinStrings joins strings with a separator
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index cd402e2..250e1f9 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -272,6 +272,7 @@ func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause
 	for rows.Next() {
 		candidate, err := s.scanEmbedding(rows)
 		if err != nil {
+			s.logger.Warn("failed to scan embedding during faceted search", "error", err)
 			continue
 		}
 		candidates = append(candidates, candidate)
@@ -304,7 +305,7 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 		
 		rows, err := s.db.QueryContext(ctx, query, limit)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to count facet %q: %w", field, err)
 		}
 		
 		facetResult := FacetResult{
@@ -315,14 +316,17 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 		for rows.Next() {
 			var value string
 			var count int
-			if err := rows.Scan(&value, &count); err == nil {
-				facetResult.Values[value] = count
-				facetResult.Total += count
+			if err := rows.Scan(&value, &count); err != nil {
+				_ = rows.Close()
+				return nil, fmt.Errorf("failed to count facet %q: %w", field, err)
 			}
+			facetResult.Values[value] = count
+			facetResult.Total += count
 		}
-		if err := rows.Close(); err != nil {
-			// Log error but don't override the main error
-			_ = err
+		err = rows.Err()
+		_ = rows.Close()
+		if err != nil {
+			return nil, fmt.Errorf("failed to count facet %q: %w", field, err)
 		}
 		
 		if len(facetResult.Values) > 0 {
diff --git a/pkg/core/io.go b/pkg/core/io.go
index e872c5f..4e8f4d9 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -106,7 +106,10 @@ func (s *SQLiteStore) dumpJSON(ctx context.Context, w io.Writer, opts DumpOption
 	stats.TotalEmbeddings = len(embeddings)
 
 	// Get metadata
-	schemaStats, _ := s.stats(ctx)
+	schemaStats, err := s.stats(ctx)
+	if err != nil {
+		return nil, err
+	}
 	stats.TotalDocuments = int(schemaStats.Count)
 
 	// Build export structure
@@ -165,7 +168,6 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 	stats.TotalEmbeddings = len(embeddings)
 
 	writer := csv.NewWriter(w)
-	defer writer.Flush()
 
 	// Write header
 	headers := []string{"id", "content", "doc_id", "metadata"}
@@ -180,13 +182,19 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 	for _, emb := range embeddings {
 		row := []string{emb.ID, emb.Content, emb.DocID}
 		if emb.Metadata != nil {
-			metaJSON, _ := json.Marshal(emb.Metadata)
+			metaJSON, err := json.Marshal(emb.Metadata)
+			if err != nil {
+				return stats, err
+			}
 			row = append(row, string(metaJSON))
 		} else {
 			row = append(row, "")
 		}
 		if opts.IncludeVectors {
-			vecJSON, _ := json.Marshal(emb.Vector)
+			vecJSON, err := json.Marshal(emb.Vector)
+			if err != nil {
+				return stats, err
+			}
 			row = append(row, string(vecJSON))
 		}
 		if err := writer.Write(row); err != nil {
@@ -194,6 +202,11 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 		}
 	}
 
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		return stats, err
+	}
+
 	return stats, nil
 }
 
@@ -226,8 +239,8 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 	for rows.Next() {
 		scoredEmb, err := s.scanEmbedding(rows)
 		if err != nil {
-			// Log error but continue with other rows
-			continue
+			// A dump that silently lacks rows is not a backup
+			return nil, wrapError("get_all_embeddings", err)
 		}
 
 		// Convert ScoredEmbedding to Embedding
@@ -331,6 +344,11 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 			if errors.Is(err, io.EOF) {
 				break
 			}
+			var typeErr *json.UnmarshalTypeError
+			if !errors.As(err, &typeErr) {
+				// The decoder cannot get past malformed or unreadable input
+				return stats, wrapError("load_jsonl", fmt.Errorf("failed to decode: %w", err))
+			}
 			stats.FailedCount++
 			continue
 		}
@@ -354,7 +372,10 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 func (s *SQLiteStore) processImportEmbedding(ctx context.Context, emb *Embedding, opts LoadOptions) (skipped bool, err error) {
 	// Check if exists
 	if opts.SkipExisting {
-		existing, _ := s.GetByID(ctx, emb.ID)
+		existing, err := s.GetByID(ctx, emb.ID)
+		if err != nil && !errors.Is(err, ErrNotFound) {
+			return false, err
+		}
 		if existing != nil {
 			return true, nil
 		}
@@ -374,9 +395,11 @@ func (s *SQLiteStore) DumpToFile(ctx context.Context, filepath string, opts Dump
 	if err != nil {
 		return nil, wrapError("dump_to_file", fmt.Errorf("failed to create file: %w", err))
 	}
-	defer func() { _ = file.Close() }()
 
 	stats, err := s.Dump(ctx, file, opts)
+	if closeErr := file.Close(); err == nil && closeErr != nil {
+		err = wrapError("dump_to_file", fmt.Errorf("failed to write file: %w", closeErr))
+	}
 	if err != nil {
 		// Remove partial file on error
 		_ = os.Remove(filepath)
diff --git a/pkg/core/store.go b/pkg/core/store.go
index cf08385..46ae4e0 100644
--- a/pkg/core/store.go
+++ b/pkg/core/store.go
@@ -129,7 +129,7 @@ func (s *SQLiteStore) stats(ctx context.Context) (StoreStats, error) {
 	var size int64
 	err = s.db.QueryRowContext(ctx, "SELECT page_count * page_size as size FROM pragma_page_count(), pragma_page_size()").Scan(&size)
 	if err != nil {
-		size = 0 // Continue without size info
+		return StoreStats{}, wrapError("stats", fmt.Errorf("failed to get size: %w", err))
 	}
 
 	return StoreStats{
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index a35f31a..a263bf4 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -279,6 +279,9 @@ func (s *SQLiteStore) TrainIndex(ctx context.Context, numCentroids int) error {
 		ids = append(ids, id)
 		vectors = append(vectors, vec)
 	}
+	if err := rows.Err(); err != nil {
+		return wrapError("train_index", fmt.Errorf("failed to fetch vectors: %w", err))
+	}
 
 	if len(vectors) == 0 {
 		return wrapError("train_index", fmt.Errorf("no vectors found for training"))
@@ -409,6 +412,7 @@ func (s *SQLiteStore) trainQuantizer(ctx context.Context) error {
 	for rows.Next() {
 		var vectorBytes []byte
 		if err := rows.Scan(&vectorBytes); err != nil {
+			s.logger.Warn("failed to scan row during quantizer training", "error", err)
 			continue
 		}
 		vec, err := encoding.DecodeVector(vectorBytes)
@@ -416,6 +420,9 @@ func (s *SQLiteStore) trainQuantizer(ctx context.Context) error {
 			trainingVectors = append(trainingVectors, vec)
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return err
+	}
 
 	if len(trainingVectors) == 0 {
 		return fmt.Errorf("no vectors available for quantizer training")
@@ -503,8 +510,10 @@ func (s *SQLiteStore) loadIndexSnapshot(ctx context.Context, indexType string) (
 				s.logger.Info("binary quantizer loaded from snapshot")
 			}
 		} else {
-			sq, _ := quantization.NewScalarQuantizer(s.config.VectorDim, s.config.Quantization.NBits)
-			if loadErr := sq.Load(bytes.NewReader(qData)); loadErr == nil {
+			sq, newErr := quantization.NewScalarQuantizer(s.config.VectorDim, s.config.Quantization.NBits)
+			if newErr != nil {
+				s.logger.Warn("failed to create scalar quantizer for snapshot", "error", newErr)
+			} else if loadErr := sq.Load(bytes.NewReader(qData)); loadErr == nil {
 				s.quantizer = sq
 				s.logger.Info("scalar quantizer loaded from snapshot")
 			}
diff --git a/pkg/core/store_query.go b/pkg/core/store_query.go
index 64d2269..af14ccf 100644
--- a/pkg/core/store_query.go
+++ b/pkg/core/store_query.go
@@ -37,6 +37,9 @@ func (s *SQLiteStore) GetByID(ctx context.Context, id string) (*Embedding, error
 	}()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, wrapError("get_by_id", err)
+		}
 		return nil, wrapError("get_by_id", ErrNotFound)
 	}
 
-- 
2.43.0


From f3ac0b3b24830614157cf6d9f075edc771c02c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:29 +0000
Subject: [PATCH 07/48] fix: hybrid and multi-vector search report failures and
 honour collection and filter

---
 pkg/core/advanced_search.go | 102 +++++++++++++++++++++++-------------
 pkg/core/collections.go     |   6 +++
 pkg/core/multi_vector.go    |  61 +++++++++------------
 pkg/core/store_search.go    |   7 ++-
 4 files changed, 101 insertions(+), 75 deletions(-)

diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 75a693d..a578271 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -4,6 +4,7 @@ package core
 import (
 	"context"
 	"database/sql"
+	"errors"
 	"fmt"
 	"math"
 	"math/rand"
@@ -91,16 +92,24 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 		}
 		
 		rows, err := s.db.QueryContext(ctx, ftsQuery, textQuery, limit)
-		if err == nil {
+		if err != nil {
+			// A text that is not a valid full-text query contributes no matches
+			s.logger.Warn("full-text search failed during hybrid search", "error", err)
+		} else {
 			defer rows.Close()
 			rank := 1
 			for rows.Next() {
 				var rowid int64
 				var score float64
-				if err := rows.Scan(&rowid, &score); err == nil {
-					ftsRanks[rowid] = rank
-					rank++
+				if err := rows.Scan(&rowid, &score); err != nil {
+					s.logger.Warn("failed to scan full-text match during hybrid search", "error", err)
+					continue
 				}
+				ftsRanks[rowid] = rank
+				rank++
+			}
+			if err := rows.Err(); err != nil {
+				s.logger.Warn("full-text search failed during hybrid search", "error", err)
 			}
 		}
 	}
@@ -147,44 +156,57 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 		)
 
 		rows, err := s.db.QueryContext(ctx, query, args...)
-		if err == nil {
-			defer rows.Close()
-			for rows.Next() {
-				var id, content, metadataJSON string
-				var docID sql.NullString
-				var collectionName sql.NullString
-				var collectionID int
-				var vectorBytes []byte
-				var rowid int64
+		if err != nil {
+			return nil, wrapError("hybrid_search", fmt.Errorf("failed to fetch full-text matches: %w", err))
+		}
+		defer rows.Close()
+		for rows.Next() {
+			var id, content, metadataJSON string
+			var docID sql.NullString
+			var collectionName sql.NullString
+			var collectionID int
+			var vectorBytes []byte
+			var rowid int64
+
+			if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &rowid); err != nil {
+				s.logger.Warn("failed to scan full-text match during hybrid search", "error", err)
+				continue
+			}
 
-				if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &rowid); err != nil {
-					continue
-				}
+			vec, _ := encoding.DecodeVector(vectorBytes)
+			meta, _ := encoding.DecodeMetadata(metadataJSON)
+			emb := Embedding{
+				ID:         id,
+				Collection: collectionName.String,
+				Vector:     vec,
+				Content:    content,
+				DocID:      docID.String,
+				Metadata:   meta,
+			}
 
-				// Calculate FTS score contribution
-				if rank, ok := ftsRanks[rowid]; ok {
-					score := 1.0 / (k + float64(rank))
-					fusedScores[id] += score
-
-					// If not already in map (from vector search), add it
-					if _, exists := embeddingsMap[id]; !exists {
-						vec, _ := encoding.DecodeVector(vectorBytes)
-						meta, _ := encoding.DecodeMetadata(metadataJSON)
-						
-						embeddingsMap[id] = ScoredEmbedding{
-							Embedding: Embedding{
-								ID:         id,
-								Collection: collectionName.String,
-								Vector:     vec,
-								Content:    content,
-								DocID:      docID.String,
-								Metadata:   meta,
-							},
-						}
-					}
+			// The full-text matches come from the whole store: keep only
+			// those the vector search could have returned
+			if opts.Collection != "" && emb.Collection != opts.Collection {
+				continue
+			}
+			if !s.matchesFilter(emb, opts.Filter) {
+				continue
+			}
+
+			// Calculate FTS score contribution
+			if rank, ok := ftsRanks[rowid]; ok {
+				score := 1.0 / (k + float64(rank))
+				fusedScores[id] += score
+
+				// If not already in map (from vector search), add it
+				if _, exists := embeddingsMap[id]; !exists {
+					embeddingsMap[id] = ScoredEmbedding{Embedding: emb}
 				}
 			}
 		}
+		if err := rows.Err(); err != nil {
+			return nil, wrapError("hybrid_search", fmt.Errorf("failed to fetch full-text matches: %w", err))
+		}
 	}
 
 	// Final results construction
@@ -561,6 +583,9 @@ func (s *SQLiteStore) RecommendSimilar(ctx context.Context, positiveIDs []string
 	positiveVectors := [][]float32{}
 	for _, id := range positiveIDs {
 		emb, err := s.GetByID(ctx, id)
+		if err != nil && !errors.Is(err, ErrNotFound) {
+			return nil, wrapError("recommend_similar", err)
+		}
 		if err == nil && emb != nil {
 			positiveVectors = append(positiveVectors, emb.Vector)
 		}
@@ -569,6 +594,9 @@ func (s *SQLiteStore) RecommendSimilar(ctx context.Context, positiveIDs []string
 	negativeVectors := [][]float32{}
 	for _, id := range negativeIDs {
 		emb, err := s.GetByID(ctx, id)
+		if err != nil && !errors.Is(err, ErrNotFound) {
+			return nil, wrapError("recommend_similar", err)
+		}
 		if err == nil && emb != nil {
 			negativeVectors = append(negativeVectors, emb.Vector)
 		}
diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index dd38d04..2250ff1 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -252,6 +252,10 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 	}
 
 	// Delete all embeddings in the collection
+	removed, err := s.embeddingIDs(ctx, tx, "SELECT id FROM embeddings WHERE collection_id = ?", collectionID)
+	if err != nil {
+		return wrapError("delete_collection", err)
+	}
 	_, err = tx.ExecContext(ctx, "DELETE FROM embeddings WHERE collection_id = ?", collectionID)
 	if err != nil {
 		return wrapError("delete_collection", fmt.Errorf("failed to delete embeddings: %w", err))
@@ -268,6 +272,8 @@ func (s *SQLiteStore) DeleteCollection(ctx context.Context, name string) error {
 		return wrapError("delete_collection", fmt.Errorf("failed to commit transaction: %w", err))
 	}
 
+	s.removeFromIndexes(removed)
+
 	return nil
 }
 
diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index a3bf0f1..c59c051 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -102,17 +102,18 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 		if err != nil {
 			return wrapError("upsert_multi_vector", err)
 		}
-		
-		// Update HNSW index if enabled
-		if s.config.HNSW.Enabled && s.hnswIndex != nil {
-			if err := s.hnswIndex.Insert(compositeID, vector); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
 	}
 	
-	return tx.Commit()
+	if err := tx.Commit(); err != nil {
+		return wrapError("upsert_multi_vector", err)
+	}
+	
+	// Update the in-memory indexes
+	for fieldName, vector := range entity.Vectors {
+		s.indexVector(fmt.Sprintf("%s___%s", entity.ID, fieldName), vector)
+	}
+	
+	return nil
 }
 
 // SearchMultiVector performs multi-vector search
@@ -145,14 +146,15 @@ func (s *SQLiteStore) SearchMultiVector(ctx context.Context, queryVectors map[st
 		
 		// Search with field-specific filter
 		fieldOpts := opts.SearchOptions
-		if fieldOpts.Filter == nil {
-			fieldOpts.Filter = make(map[string]string)
+		fieldOpts.Filter = make(map[string]string, len(opts.Filter)+1)
+		for k, v := range opts.Filter {
+			fieldOpts.Filter[k] = v
 		}
 		fieldOpts.Filter["_vector_field"] = fieldName
 		
 		results, err := s.search(ctx, queryVector, fieldOpts)
 		if err != nil {
-			continue
+			return nil, wrapError("search_multi_vector", err)
 		}
 		
 		// Group by entity ID
@@ -289,19 +291,19 @@ func (s *SQLiteStore) GetMultiVectorEntity(ctx context.Context, entityID string)
 		var vectorBytes []byte
 		
 		if err := rows.Scan(&compositeID, &vectorBytes, &content, &metadataJSON); err != nil {
-			continue
+			return nil, wrapError("get_multi_vector", err)
 		}
 		
 		// Decode vector
 		vector, err := encoding.DecodeVector(vectorBytes)
 		if err != nil {
-			continue
+			return nil, wrapError("get_multi_vector", err)
 		}
 		
 		// Parse metadata
 		var metadata map[string]interface{}
 		if err := json.Unmarshal([]byte(metadataJSON), &metadata); err != nil {
-			continue
+			return nil, wrapError("get_multi_vector", err)
 		}
 		
 		// Extract vector field name
@@ -324,6 +326,10 @@ func (s *SQLiteStore) GetMultiVectorEntity(ctx context.Context, entityID string)
 		}
 	}
 	
+	if err := rows.Err(); err != nil {
+		return nil, wrapError("get_multi_vector", err)
+	}
+	
 	if len(entity.Vectors) == 0 {
 		return nil, wrapError("get_multi_vector", ErrNotFound)
 	}
@@ -341,7 +347,7 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 	}
 	
 	// Get all composite IDs first
-	rows, err := s.db.QueryContext(ctx, `
+	compositeIDs, err := s.embeddingIDs(ctx, s.db, `
 		SELECT id FROM embeddings
 		WHERE json_extract(metadata, '$._entity_id') = ?
 	`, entityID)
@@ -349,18 +355,6 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 		return wrapError("delete_multi_vector", err)
 	}
 	
-	var compositeIDs []string
-	for rows.Next() {
-		var id string
-		if err := rows.Scan(&id); err == nil {
-			compositeIDs = append(compositeIDs, id)
-		}
-	}
-	if err := rows.Close(); err != nil {
-		// Log error but don't override the main error
-		_ = err
-	}
-	
 	// Delete from database
 	_, err = s.db.ExecContext(ctx, `
 		DELETE FROM embeddings
@@ -370,15 +364,8 @@ func (s *SQLiteStore) DeleteMultiVectorEntity(ctx context.Context, entityID stri
 		return wrapError("delete_multi_vector", err)
 	}
 	
-	// Update HNSW index
-	if s.config.HNSW.Enabled && s.hnswIndex != nil {
-		for _, id := range compositeIDs {
-			if err := s.hnswIndex.Delete(id); err != nil {
-				// Log error but don't fail the entire operation
-				_ = err
-			}
-		}
-	}
+	// Update the in-memory indexes
+	s.removeFromIndexes(compositeIDs)
 	
 	return nil
 }
\ No newline at end of file
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 9ec7e93..6ecf191 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -417,7 +417,12 @@ func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
 func (s *SQLiteStore) matchesFilter(emb Embedding, filter map[string]string) bool {
 	for key, value := range filter {
 		if key == "doc_id" {
-			continue // Already filtered in SQL
+			// Filtered in SQL on the linear path, not when the candidates
+			// come from an index
+			if emb.DocID != value {
+				return false
+			}
+			continue
 		}
 		if emb.Metadata == nil || emb.Metadata[key] != value {
 			return false
-- 
2.43.0


From e5c7a6e5bc68b5003c95851b154917d5ac75712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:08 +0000
Subject: [PATCH 08/48] fix: facet counting and filtered search no longer hide
 storage failures

---
 pkg/core/advanced_filter.go | 1 +
 pkg/core/faceted_search.go  | 3 +--
 pkg/core/store_index.go     | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 61b701f..15da460 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -610,6 +610,7 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 	for rows.Next() {
 		candidate, err := s.scanEmbedding(rows)
 		if err != nil {
+			s.logger.Warn("failed to scan embedding during filtered search", "error", err)
 			continue
 		}
 		candidates = append(candidates, candidate)
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index 250e1f9..f621873 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -99,8 +99,7 @@ func (s *SQLiteStore) SearchWithFacets(ctx context.Context, query []float32, opt
 	if opts.ReturnFacets {
 		facetResults, err = s.computeFacetCounts(ctx, opts)
 		if err != nil {
-			// Don't fail search if facet counting fails
-			facetResults = []FacetResult{}
+			return nil, nil, wrapError("search_with_facets", err)
 		}
 	}
 	
diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index a263bf4..37309bb 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -502,6 +502,9 @@ func (s *SQLiteStore) loadIndexSnapshot(ctx context.Context, indexType string) (
 	// First try to load quantizer if we're loading an index
 	var qData []byte
 	err := s.db.QueryRowContext(ctx, "SELECT data FROM index_snapshots WHERE type = ?", "QUANTIZER").Scan(&qData)
+	if err != nil && err != sql.ErrNoRows {
+		s.logger.Warn("failed to query quantizer snapshot", "error", err)
+	}
 	if err == nil {
 		if s.config.Quantization.Type == "binary" {
 			bq := quantization.NewBinaryQuantizer(s.config.VectorDim)
-- 
2.43.0


From 9e46b0fab1027492969294b1fc62bc16ca1cb8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:23 +0000
Subject: [PATCH 09/48] fix: graph reads, algorithms and exports report storage
 failures

---
 pkg/graph/graph.go            |  2 +-
 pkg/graph/graph_algorithms.go | 48 ++++++++++++++++++++++++++++++-----
 pkg/graph/graph_export.go     | 31 ++++++++++++++++------
 pkg/graph/graph_hnsw.go       | 19 +++++++++++---
 pkg/graph/graph_hybrid.go     | 14 ++++++++--
 pkg/graph/graph_traversal.go  | 13 +++++++---
 6 files changed, 102 insertions(+), 25 deletions(-)

diff --git a/pkg/graph/graph.go b/pkg/graph/graph.go
index f1eae2c..8816bb6 100644
--- a/pkg/graph/graph.go
+++ b/pkg/graph/graph.go
@@ -219,7 +219,7 @@ func (g *GraphStore) GetNode(ctx context.Context, nodeID string) (*GraphNode, er
 	)
 
 	if err == sql.ErrNoRows {
-		return nil, fmt.Errorf("node not found: %s", nodeID)
+		return nil, fmt.Errorf("node not found: %s: %w", nodeID, core.ErrNotFound)
 	}
 	if err != nil {
 		return nil, err
diff --git a/pkg/graph/graph_algorithms.go b/pkg/graph/graph_algorithms.go
index 4ba8f65..f51a21e 100644
--- a/pkg/graph/graph_algorithms.go
+++ b/pkg/graph/graph_algorithms.go
@@ -40,7 +40,11 @@ func (g *GraphStore) PageRank(ctx context.Context, iterations int, dampingFactor
 		nodeToIndex[id] = len(nodes)
 		nodes = append(nodes, id)
 	}
+	err = rows.Err()
 	rows.Close()
+	if err != nil {
+		return nil, fmt.Errorf("read rows: %w", err)
+	}
 
 	if len(nodes) == 0 {
 		return []PageRankResult{}, nil
@@ -69,7 +73,11 @@ func (g *GraphStore) PageRank(ctx context.Context, iterations int, dampingFactor
 			inLinks[v] = append(inLinks[v], u)
 		}
 	}
+	err = edgeRows.Err()
 	edgeRows.Close()
+	if err != nil {
+		return nil, fmt.Errorf("read rows: %w", err)
+	}
 
 	// 3. Compute PageRank
 	nodeCount := float64(len(nodes))
@@ -151,7 +159,11 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 		nodeToIndex[id] = len(nodes)
 		nodes = append(nodes, id)
 	}
+	err = rows.Err()
 	rows.Close()
+	if err != nil {
+		return nil, fmt.Errorf("read rows: %w", err)
+	}
 
 	if len(nodes) == 0 {
 		return []Community{}, nil
@@ -185,7 +197,11 @@ func (g *GraphStore) CommunityDetection(ctx context.Context) ([]Community, error
 			adj[v][u] += weight // Treat as undirected for community detection often works better
 		}
 	}
+	err = edgeRows.Err()
 	edgeRows.Close()
+	if err != nil {
+		return nil, fmt.Errorf("read rows: %w", err)
+	}
 
 	// 3. Louvain Algorithm (Simplified)
 	communities := make([]int, len(nodes))
@@ -299,12 +315,16 @@ func (g *GraphStore) PredictEdges(ctx context.Context, nodeID string, topK int)
 	adj := make(map[string]map[string]bool)
 	for edgeRows.Next() {
 		var u, v string
-		if err := edgeRows.Scan(&u, &v); err == nil {
-			if adj[u] == nil { adj[u] = make(map[string]bool) }
-			if adj[v] == nil { adj[v] = make(map[string]bool) }
-			adj[u][v] = true
-			adj[v][u] = true // Treat as undirected for common neighbors
+		if err := edgeRows.Scan(&u, &v); err != nil {
+			return nil, fmt.Errorf("scan edge: %w", err)
 		}
+		if adj[u] == nil { adj[u] = make(map[string]bool) }
+		if adj[v] == nil { adj[v] = make(map[string]bool) }
+		adj[u][v] = true
+		adj[v][u] = true // Treat as undirected for common neighbors
+	}
+	if err := edgeRows.Err(); err != nil {
+		return nil, fmt.Errorf("read edges: %w", err)
 	}
 
 	existingConnections := adj[nodeID]
@@ -404,11 +424,18 @@ func (g *GraphStore) GetGraphStatistics(ctx context.Context) (*GraphStatistics,
 	adj := make(map[string][]string)
 	for edgeRows.Next() {
 		var u, v string
-		edgeRows.Scan(&u, &v)
+		if err := edgeRows.Scan(&u, &v); err != nil {
+			edgeRows.Close()
+			return nil, err
+		}
 		adj[u] = append(adj[u], v)
 		adj[v] = append(adj[v], u) // Undirected traversal
 	}
+	err = edgeRows.Err()
 	edgeRows.Close()
+	if err != nil {
+		return nil, fmt.Errorf("read rows: %w", err)
+	}
 
 	// Get all IDs for traversal
 	idRows, err := g.db.QueryContext(ctx, "SELECT id FROM graph_nodes")
@@ -418,10 +445,17 @@ func (g *GraphStore) GetGraphStatistics(ctx context.Context) (*GraphStatistics,
 	var allIDs []string
 	for idRows.Next() {
 		var id string
-		idRows.Scan(&id)
+		if err := idRows.Scan(&id); err != nil {
+			idRows.Close()
+			return nil, err
+		}
 		allIDs = append(allIDs, id)
 	}
+	err = idRows.Err()
 	idRows.Close()
+	if err != nil {
+		return nil, fmt.Errorf("read rows: %w", err)
+	}
 
 	visited := make(map[string]bool)
 	components := 0
diff --git a/pkg/graph/graph_export.go b/pkg/graph/graph_export.go
index 0eec310..b288d6c 100644
--- a/pkg/graph/graph_export.go
+++ b/pkg/graph/graph_export.go
@@ -69,7 +69,7 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -106,13 +106,19 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 		
 		// Encode vector as JSON
 		if len(node.Vector) > 0 {
-			vectorJSON, _ := json.Marshal(node.Vector)
+			vectorJSON, err := json.Marshal(node.Vector)
+			if err != nil {
+				return fmt.Errorf("failed to encode: %w", err)
+			}
 			gmlNode.Data = append(gmlNode.Data, GraphMLData{Key: "d2", Value: string(vectorJSON)})
 		}
 		
 		// Encode properties as JSON
 		if node.Properties != nil {
-			propsJSON, _ := json.Marshal(node.Properties)
+			propsJSON, err := json.Marshal(node.Properties)
+			if err != nil {
+				return fmt.Errorf("failed to encode: %w", err)
+			}
 			gmlNode.Data = append(gmlNode.Data, GraphMLData{Key: "d3", Value: string(propsJSON)})
 		}
 		
@@ -139,7 +145,10 @@ func (g *GraphStore) ExportGraphML(ctx context.Context, writer io.Writer) error
 		
 		// Encode properties as JSON
 		if edge.Properties != nil {
-			propsJSON, _ := json.Marshal(edge.Properties)
+			propsJSON, err := json.Marshal(edge.Properties)
+			if err != nil {
+				return fmt.Errorf("failed to encode: %w", err)
+			}
 			gmlEdge.Data = append(gmlEdge.Data, GraphMLData{Key: "d6", Value: string(propsJSON)})
 		}
 		
@@ -336,7 +345,7 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		allEdges = append(allEdges, edges...)
 	}
@@ -383,13 +392,19 @@ func (g *GraphStore) ExportGEXF(ctx context.Context, writer io.Writer) error {
 		
 		// Encode vector as JSON
 		if len(node.Vector) > 0 {
-			vectorJSON, _ := json.Marshal(node.Vector)
+			vectorJSON, err := json.Marshal(node.Vector)
+			if err != nil {
+				return fmt.Errorf("failed to encode: %w", err)
+			}
 			gexfNode.AttValues = append(gexfNode.AttValues, GEXFAttValue{For: "2", Value: string(vectorJSON)})
 		}
 		
 		// Encode properties as JSON
 		if node.Properties != nil {
-			propsJSON, _ := json.Marshal(node.Properties)
+			propsJSON, err := json.Marshal(node.Properties)
+			if err != nil {
+				return fmt.Errorf("failed to encode: %w", err)
+			}
 			gexfNode.AttValues = append(gexfNode.AttValues, GEXFAttValue{For: "3", Value: string(propsJSON)})
 		}
 		
@@ -526,7 +541,7 @@ func (g *GraphStore) ExportJSON(ctx context.Context, writer io.Writer) error {
 	for _, node := range nodes {
 		edges, err := g.GetEdges(ctx, node.ID, "out")
 		if err != nil {
-			continue
+			return fmt.Errorf("failed to get edges: %w", err)
 		}
 		for _, edge := range edges {
 			if !edgeSet[edge.ID] {
diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index 92be327..f0e9caa 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -2,6 +2,7 @@ package graph
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math"
 	"math/rand"
@@ -318,7 +319,7 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 		var nodeID string
 		var vectorBytes []byte
 		if err := rows.Scan(&nodeID, &vectorBytes); err != nil {
-			continue
+			return fmt.Errorf("failed to scan existing node: %w", err)
 		}
 
 		vector, err := encoding.DecodeVector(vectorBytes)
@@ -328,6 +329,9 @@ func (g *GraphStore) EnableHNSWIndex(dimensions int) error {
 
 		_ = idx.index.Add(nodeID, vector)
 	}
+	if err := rows.Err(); err != nil {
+		return fmt.Errorf("failed to query existing nodes: %w", err)
+	}
 
 	return nil
 }
@@ -346,9 +350,12 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 		if candidate.score >= threshold && len(results) < k {
 			// Get full node data
 			node, err := g.GetNode(ctx, candidate.nodeID)
-			if err != nil {
+			if errors.Is(err, core.ErrNotFound) {
 				continue
 			}
+			if err != nil {
+				return nil, err
+			}
 
 			results = append(results, &HybridResult{
 				Node:        node,
@@ -378,15 +385,21 @@ func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) (
 	for _, candidate := range candidates {
 		if candidate.score >= query.VectorThreshold {
 			node, err := g.GetNode(ctx, candidate.nodeID)
-			if err != nil {
+			if errors.Is(err, core.ErrNotFound) {
 				continue
 			}
+			if err != nil {
+				return nil, err
+			}
 
 			// Calculate graph score if center nodes provided
 			graphScore := 0.0
 			if len(query.CenterNodes) > 0 {
 				for _, centerID := range query.CenterNodes {
 					distance, err := g.ShortestPath(ctx, centerID, candidate.nodeID)
+					if err != nil && !errors.Is(err, core.ErrNotFound) {
+						return nil, err
+					}
 					if err == nil && distance != nil && len(distance.Nodes) > 0 {
 						// Convert path length to score (shorter = higher score)
 						pathScore := 1.0 / float64(len(distance.Nodes))
diff --git a/pkg/graph/graph_hybrid.go b/pkg/graph/graph_hybrid.go
index 0822275..2065282 100644
--- a/pkg/graph/graph_hybrid.go
+++ b/pkg/graph/graph_hybrid.go
@@ -2,6 +2,7 @@ package graph
 
 import (
 	"context"
+	"errors"
 	"database/sql"
 	"encoding/json"
 	"fmt"
@@ -68,9 +69,12 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 		if !ok {
 			var err error
 			node, err = g.GetNode(ctx, nodeID)
-			if err != nil {
+			if errors.Is(err, core.ErrNotFound) {
 				continue
 			}
+			if err != nil {
+				return nil, err
+			}
 			nodeCache[nodeID] = node
 		}
 
@@ -102,9 +106,12 @@ func (g *GraphStore) HybridSearch(ctx context.Context, query *HybridQuery) ([]*H
 			if !ok {
 				var err error
 				node, err = g.GetNode(ctx, nodeID)
-				if err != nil {
+				if errors.Is(err, core.ErrNotFound) {
 					continue
 				}
+				if err != nil {
+					return nil, err
+				}
 				nodeCache[nodeID] = node
 			}
 
@@ -156,6 +163,9 @@ func (g *GraphStore) GraphVectorSearch(ctx context.Context, startNodeID string,
 
 	// Add the start node itself
 	startNode, err := g.GetNode(ctx, startNodeID)
+	if err != nil && !errors.Is(err, core.ErrNotFound) {
+		return nil, fmt.Errorf("failed to get start node: %w", err)
+	}
 	if err == nil {
 		neighbors = append([]*GraphNode{startNode}, neighbors...)
 	}
diff --git a/pkg/graph/graph_traversal.go b/pkg/graph/graph_traversal.go
index 15c3371..71e8c02 100644
--- a/pkg/graph/graph_traversal.go
+++ b/pkg/graph/graph_traversal.go
@@ -4,8 +4,10 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
+	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 )
 
 // TraversalOptions defines options for graph traversal
@@ -152,7 +154,7 @@ func (g *GraphStore) ShortestPath(ctx context.Context, fromID, toID string) (*Pa
 			for _, nodeID := range current.path {
 				node, ok := nodesByID[nodeID]
 				if !ok {
-					return nil, fmt.Errorf("node not found: %s", nodeID)
+					return nil, fmt.Errorf("node not found: %s: %w", nodeID, core.ErrNotFound)
 				}
 				result.Nodes = append(result.Nodes, node)
 			}
@@ -199,7 +201,7 @@ func (g *GraphStore) ShortestPath(ctx context.Context, fromID, toID string) (*Pa
 		}
 	}
 
-	return nil, fmt.Errorf("no path found from %s to %s", fromID, toID)
+	return nil, fmt.Errorf("no path found from %s to %s: %w", fromID, toID, core.ErrNotFound)
 }
 
 // Subgraph extracts a subgraph containing specified nodes and their connections
@@ -215,9 +217,12 @@ func (g *GraphStore) Subgraph(ctx context.Context, nodeIDs []string) (*GraphResu
 	// Get all nodes
 	for _, nodeID := range nodeIDs {
 		node, err := g.GetNode(ctx, nodeID)
-		if err != nil {
+		if errors.Is(err, core.ErrNotFound) {
 			continue // Skip if node not found
 		}
+		if err != nil {
+			return nil, err
+		}
 		nodes = append(nodes, node)
 	}
 
@@ -225,7 +230,7 @@ func (g *GraphStore) Subgraph(ctx context.Context, nodeIDs []string) (*GraphResu
 	for _, nodeID := range nodeIDs {
 		nodeEdges, err := g.GetEdges(ctx, nodeID, "out")
 		if err != nil {
-			continue
+			return nil, err
 		}
 
 		for _, edge := range nodeEdges {
-- 
2.43.0


From a0c946209cc269e9becf74267bc3a1cb5ba0f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:10 +0000
Subject: [PATCH 10/48] fix: knowledge, memory and GraphRAG operations no
 longer take storage failures for absence

---
 pkg/core/collections.go        |  4 ++--
 pkg/core/errors.go             |  3 +++
 pkg/cortexdb/cortexdb.go       |  2 +-
 pkg/cortexdb/graphrag.go       |  9 ++++++++-
 pkg/cortexdb/graphrag_tools.go | 16 +++++++++++++---
 pkg/cortexdb/memory_api.go     |  9 ++++++++-
 6 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 2250ff1..2cf7384 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -45,7 +45,7 @@ func (s *SQLiteStore) CreateCollection(ctx context.Context, name string, dimensi
 		return nil, wrapError("create_collection", fmt.Errorf("failed to check collection existence: %w", err))
 	}
 	if exists {
-		return nil, wrapError("create_collection", fmt.Errorf("collection '%s' already exists", name))
+		return nil, wrapError("create_collection", fmt.Errorf("collection '%s' %w", name, ErrAlreadyExists))
 	}
 
 	// Allow 0 dimensions for auto-detection
@@ -140,7 +140,7 @@ func (s *SQLiteStore) getCollection(ctx context.Context, name string) (*Collecti
 	}
 
 	if err == sql.ErrNoRows {
-		return nil, wrapError("get_collection", fmt.Errorf("collection '%s' not found", name))
+		return nil, wrapError("get_collection", fmt.Errorf("collection '%s' not found: %w", name, ErrNotFound))
 	}
 	if err != nil {
 		return nil, wrapError("get_collection", fmt.Errorf("failed to get collection: %w", err))
diff --git a/pkg/core/errors.go b/pkg/core/errors.go
index 3b6465d..d2a35ac 100644
--- a/pkg/core/errors.go
+++ b/pkg/core/errors.go
@@ -13,6 +13,9 @@ var (
 	// ErrNotFound is returned when an embedding is not found
 	ErrNotFound = errors.New("embedding not found")
 	
+	// ErrAlreadyExists is returned when creating something that exists
+	ErrAlreadyExists = errors.New("already exists")
+	
 	// ErrInvalidVector is returned when vector data is invalid
 	ErrInvalidVector = errors.New("invalid vector data")
 	
diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index 1c4d761..e9eae22 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -480,7 +480,7 @@ func (db *DB) ftsSearch(ctx context.Context, query string, opts TextSearchOption
 		var score float64
 
 		if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &score); err != nil {
-			continue
+			return nil, fmt.Errorf("FTS search failed: %w", err)
 		}
 
 		// Normalize BM25 score to a similarity-like score (higher is better)
diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index 53e4d3e..d3029f1 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -2,6 +2,7 @@ package cortexdb
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math"
 	"regexp"
@@ -579,8 +580,11 @@ func (db *DB) ensureGraphRAGCollection(ctx context.Context, name string) error {
 	if err == nil {
 		return nil
 	}
+	if !errors.Is(err, core.ErrNotFound) {
+		return fmt.Errorf("ensure graphrag collection: %w", err)
+	}
 	_, err = db.store.CreateCollection(ctx, name, db.embedder.Dim())
-	if err != nil && !strings.Contains(err.Error(), "already exists") {
+	if err != nil && !errors.Is(err, core.ErrAlreadyExists) {
 		return fmt.Errorf("ensure graphrag collection: %w", err)
 	}
 	return nil
@@ -588,6 +592,9 @@ func (db *DB) ensureGraphRAGCollection(ctx context.Context, name string) error {
 
 func (db *DB) upsertGraphRAGDocumentRecord(ctx context.Context, doc *core.Document) error {
 	existing, err := db.store.GetDocument(ctx, doc.ID)
+	if err != nil && !errors.Is(err, core.ErrNotFound) {
+		return fmt.Errorf("get document record: %w", err)
+	}
 	if err != nil {
 		if err := db.store.CreateDocument(ctx, doc); err != nil {
 			return fmt.Errorf("create document record: %w", err)
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index bfb2df7..34ab012 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -3,6 +3,7 @@ package cortexdb
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"hash/fnv"
 	"sort"
@@ -871,7 +872,7 @@ func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSe
 			Limit:     req.TopK * 8,
 		})
 		if err != nil {
-			continue
+			return nil, err
 		}
 		for _, node := range neighbors {
 			scoreMap[node.ID] += 1.0
@@ -1161,6 +1162,9 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 func (t *GraphRAGToolbox) lexicalVectorDim(ctx context.Context, collection string) (int, error) {
 	if collection != "" {
 		existing, err := t.db.store.GetCollection(ctx, collection)
+		if err != nil && !errors.Is(err, core.ErrNotFound) {
+			return 0, err
+		}
 		if err == nil && existing.Dimensions > 0 {
 			return existing.Dimensions, nil
 		}
@@ -1179,8 +1183,11 @@ func (t *GraphRAGToolbox) ensureLexicalCollection(ctx context.Context, name stri
 	if err == nil {
 		return nil
 	}
+	if !errors.Is(err, core.ErrNotFound) {
+		return fmt.Errorf("ensure lexical collection: %w", err)
+	}
 	_, err = t.db.store.CreateCollection(ctx, name, dim)
-	if err != nil && !strings.Contains(err.Error(), "already exists") {
+	if err != nil && !errors.Is(err, core.ErrAlreadyExists) {
 		return fmt.Errorf("ensure lexical collection: %w", err)
 	}
 	return nil
@@ -1211,9 +1218,12 @@ func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[strin
 	chunks := make([]ToolChunk, 0, len(orderedIDs))
 	for _, chunkID := range orderedIDs {
 		emb, err := t.db.store.GetByID(ctx, chunkID)
-		if err != nil {
+		if errors.Is(err, core.ErrNotFound) {
 			continue
 		}
+		if err != nil {
+			return nil, err
+		}
 		var entities []string
 		if includeEntities {
 			entities, err = t.getChunkEntityNames(ctx, chunkID)
diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 25bef9a..614fc70 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -154,7 +154,10 @@ func (db *DB) SearchMemory(ctx context.Context, req MemorySearchRequest) (*Memor
 		queryVec, err := db.embedder.Embed(ctx, req.Query)
 		if err == nil {
 			messages, err := db.store.SearchChatHistory(ctx, queryVec, bucketID, req.TopK)
-			if err == nil && len(messages) > 0 {
+			if err != nil {
+				return nil, fmt.Errorf("search memory: %w", err)
+			}
+			if len(messages) > 0 {
 				hits := make([]MemorySearchHit, 0, len(messages))
 				for i, message := range messages {
 					record := memoryRecordFromMessage(bucketID, "", message)
@@ -364,6 +367,10 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 				merged[record.ID] = scoredMemory{record: record, score: score}
 			}
 		}
+		if err := rows.Err(); err != nil {
+			_ = rows.Close()
+			return nil, fmt.Errorf("read lexical memory rows: %w", err)
+		}
 		if err := rows.Close(); err != nil {
 			return nil, fmt.Errorf("close lexical memory rows: %w", err)
 		}
-- 
2.43.0


From 0e4896b3215e4f8cf0df28ee45e61caf5517e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:36 +0000
Subject: [PATCH 11/48] fix: chat and document reads and imports refuse a
 closed store

---
 pkg/core/chat.go     | 20 ++++++++++++++++++++
 pkg/core/document.go |  4 ++++
 pkg/core/io.go       |  6 ++++++
 3 files changed, 30 insertions(+)

diff --git a/pkg/core/chat.go b/pkg/core/chat.go
index 4409a6c..5649536 100644
--- a/pkg/core/chat.go
+++ b/pkg/core/chat.go
@@ -57,6 +57,10 @@ func (s *SQLiteStore) GetSession(ctx context.Context, id string) (*Session, erro
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session", ErrStoreClosed)
+	}
+
 	var sess Session
 	var metadataJSON []byte
 
@@ -119,6 +123,10 @@ func (s *SQLiteStore) GetSessionHistory(ctx context.Context, sessionID string, l
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("get_session_history", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, session_id, role, content, vector, metadata, created_at
 		FROM messages 
@@ -169,6 +177,10 @@ func (s *SQLiteStore) SearchChatHistory(ctx context.Context, queryVec []float32,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_chat_history", ErrStoreClosed)
+	}
+
 	// This is a linear scan over the session's messages.
 	// For huge history, we should use HNSW, but session history is usually small (<1000 items).
 
@@ -238,6 +250,10 @@ func (s *SQLiteStore) KeywordSearchMessages(ctx context.Context, query, userID,
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("keyword_search_messages", ErrStoreClosed)
+	}
+
 	if query == "" || userID == "" {
 		return nil, nil
 	}
@@ -272,6 +288,10 @@ func (s *SQLiteStore) SearchMessagesByUser(ctx context.Context, userID string, q
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("search_messages_by_user", ErrStoreClosed)
+	}
+
 	if userID == "" || len(queryVec) == 0 {
 		return nil, nil
 	}
diff --git a/pkg/core/document.go b/pkg/core/document.go
index ee67b9c..a256f93 100644
--- a/pkg/core/document.go
+++ b/pkg/core/document.go
@@ -172,6 +172,10 @@ func (s *SQLiteStore) ListDocumentsWithFilter(ctx context.Context, author string
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
+	if s.closed {
+		return nil, wrapError("list_documents", ErrStoreClosed)
+	}
+
 	query := `
 		SELECT id, title, source_url, content, version, author, metadata, acl, created_at, updated_at
 		FROM documents WHERE 1=1
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 4e8f4d9..450ce44 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -320,6 +320,9 @@ func (s *SQLiteStore) loadJSON(ctx context.Context, r io.Reader, opts LoadOption
 	for _, emb := range export.Embeddings {
 		skipped, err := s.processImportEmbedding(ctx, emb, opts)
 		if err != nil {
+			if errors.Is(err, ErrStoreClosed) {
+				return stats, wrapError("load_json", ErrStoreClosed)
+			}
 			stats.FailedCount++
 			continue
 		}
@@ -355,6 +358,9 @@ func (s *SQLiteStore) loadJSONL(ctx context.Context, r io.Reader, opts LoadOptio
 
 		skipped, err := s.processImportEmbedding(ctx, &emb, opts)
 		if err != nil {
+			if errors.Is(err, ErrStoreClosed) {
+				return stats, wrapError("load_jsonl", ErrStoreClosed)
+			}
 			stats.FailedCount++
 			continue
 		}
-- 
2.43.0


From 14f5f595be32234cdcb48acfe7d4a7e96ad71952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:23 +0000
Subject: [PATCH 12/48] fix: Init no longer leaks or replaces an open database
 handle

---
 pkg/core/store_init.go     | 11 +++++++++++
 pkg/hindsight/hindsight.go |  8 +-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index 18f515d..a38db15 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -17,6 +17,9 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	if s.closed {
 		return wrapError("init", ErrStoreClosed)
 	}
+	if s.db != nil {
+		return nil // already initialized
+	}
 
 	// Open database connection
 	// _journal_mode=WAL: Better concurrency
@@ -37,6 +40,13 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	db.SetConnMaxLifetime(2 * time.Hour)
 
 	s.db = db
+	initialized := false
+	defer func() {
+		if !initialized {
+			_ = db.Close()
+			s.db = nil
+		}
+	}()
 
 	// Enable Foreign Keys (Crucial for cascading deletes)
 	if _, err := s.db.Exec("PRAGMA foreign_keys = ON;"); err != nil {
@@ -65,6 +75,7 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 		s.startAutoSave()
 	}
 
+	initialized = true
 	return nil
 }
 
diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 34de8f0..f613b16 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -83,14 +83,8 @@ func New(cfg *Config) (*System, error) {
 		autoRetainCfg: defaultAutoRetainConfig(),
 	}
 
-	// Initialize the store and graph schema
+	// Initialize the graph schema (Open has initialized the store)
 	ctx := context.Background()
-	if err := sys.store.Init(ctx); err != nil {
-		db.Close()
-		return nil, fmt.Errorf("initialize store: %w", err)
-	}
-
-	// Initialize graph schema
 	if err := sys.graph.InitGraphSchema(ctx); err != nil {
 		db.Close()
 		return nil, fmt.Errorf("initialize graph: %w", err)
-- 
2.43.0


From a87e679c177af794ad61a9c6bae348fbf3e1b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:36 +0000
Subject: [PATCH 13/48] fix: apply the connection settings, foreign keys
 included, to every pooled connection

---
 pkg/core/store_init.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index a38db15..c6f6423 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -22,11 +22,13 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 	}
 
 	// Open database connection
-	// _journal_mode=WAL: Better concurrency
-	// _synchronous=NORMAL: Good balance of safety and speed
-	// _busy_timeout=5000: Wait up to 5s for lock instead of failing immediately
-	// _cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
-	dsn := fmt.Sprintf("%s?_journal_mode=WAL&_synchronous=NORMAL&_busy_timeout=5000&_cache_size=-2000", s.config.Path)
+	// The driver runs every _pragma on each connection of the pool:
+	// journal_mode=WAL: Better concurrency
+	// synchronous=NORMAL: Good balance of safety and speed
+	// busy_timeout=5000: Wait up to 5s for lock instead of failing immediately
+	// cache_size=-2000: Use 2MB of memory for cache (negative value = kb)
+	// foreign_keys=ON: Crucial for cascading deletes
+	dsn := fmt.Sprintf("%s?_pragma=busy_timeout(5000)&_pragma=journal_mode(WAL)&_pragma=synchronous(NORMAL)&_pragma=cache_size(-2000)&_pragma=foreign_keys(ON)", s.config.Path)
 	db, err := sql.Open("sqlite", dsn)
 	if err != nil {
 		return wrapError("init", fmt.Errorf("failed to open database: %w", err))
@@ -48,11 +50,6 @@ func (s *SQLiteStore) Init(ctx context.Context) error {
 		}
 	}()
 
-	// Enable Foreign Keys (Crucial for cascading deletes)
-	if _, err := s.db.Exec("PRAGMA foreign_keys = ON;"); err != nil {
-		return wrapError("init", fmt.Errorf("failed to enable foreign keys: %w", err))
-	}
-
 	// Create tables
 	if err := s.createTables(ctx); err != nil {
 		return wrapError("init", err)
-- 
2.43.0


From ea4a6823078e0d0776d4415bdb71155138f92e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:10 +0000
Subject: [PATCH 14/48] fix: CreateCollection leaves nothing behind when it
 reports an error

---
 pkg/core/collections.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/core/collections.go b/pkg/core/collections.go
index 2cf7384..366b8bf 100644
--- a/pkg/core/collections.go
+++ b/pkg/core/collections.go
@@ -53,8 +53,14 @@ func (s *SQLiteStore) CreateCollection(ctx context.Context, name string, dimensi
 		return nil, wrapError("create_collection", fmt.Errorf("dimensions must be non-negative"))
 	}
 
-	// Insert new collection
-	result, err := s.db.ExecContext(ctx, `
+	// Insert new collection and read it back in one transaction
+	tx, err := s.db.BeginTx(ctx, nil)
+	if err != nil {
+		return nil, wrapError("create_collection", fmt.Errorf("failed to begin transaction: %w", err))
+	}
+	defer func() { _ = tx.Rollback() }()
+
+	result, err := tx.ExecContext(ctx, `
 		INSERT INTO collections (name, dimensions, created_at, updated_at)
 		VALUES (?, ?, CURRENT_TIMESTAMP, CURRENT_TIMESTAMP)
 	`, name, dimensions)
@@ -72,7 +78,7 @@ func (s *SQLiteStore) CreateCollection(ctx context.Context, name string, dimensi
 	var metadataJSON sql.NullString
 	var description sql.NullString
 
-	err = s.db.QueryRowContext(ctx, `
+	err = tx.QueryRowContext(ctx, `
 		SELECT id, name, dimensions, description, metadata, created_at, updated_at
 		FROM collections WHERE name = ?
 	`, name).Scan(
@@ -92,6 +98,9 @@ func (s *SQLiteStore) CreateCollection(ctx context.Context, name string, dimensi
 	if err != nil {
 		return nil, wrapError("create_collection", fmt.Errorf("failed to retrieve created collection: %w", err))
 	}
+	if err := tx.Commit(); err != nil {
+		return nil, wrapError("create_collection", fmt.Errorf("failed to commit transaction: %w", err))
+	}
 
 	// Parse metadata if present
 	if metadataJSON.Valid && metadataJSON.String != "" {
-- 
2.43.0


From 460b62dac889843c65113f361ab6da1e0c87a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:38 +0000
Subject: [PATCH 15/48] fix: bind metadata field names, filter values and file
 names instead of pasting them into SQL

Field names of metadata filters, facets and aggregations, group-by
columns and the backup file name were formatted into statement text.
They are bound now, unsupported or malformed operators are reported as
errors, and OR filters are parenthesised so that they cannot widen the
collection condition.
---
 pkg/core/advanced_filter.go | 147 ++++++++++++++++++++----------------
 pkg/core/aggregations.go    |  90 +++++++++++++++-------
 pkg/core/faceted_search.go  |  49 ++++++------
 pkg/core/io.go              |  11 +--
 pkg/core/store_crud.go      |   5 +-
 5 files changed, 177 insertions(+), 125 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 15da460..502337c 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -218,91 +218,102 @@ func parseValue(str string) (interface{}, error) {
 	return str, nil
 }
 
-// BuildSQLFromFilter converts FilterExpression to SQL WHERE clause
+// BuildSQLFromFilter converts FilterExpression to SQL WHERE clause. The names of the
+// metadata fields are bound parameters like the values. A filter that cannot be
+// expressed in SQL matches nothing.
 func BuildSQLFromFilter(filter *FilterExpression, paramIndex *int) (string, []interface{}) {
+	clause, params, err := filterSQL(filter, "metadata")
+	if err != nil {
+		return "1 = 0", nil
+	}
+	*paramIndex += len(params)
+	return clause, params
+}
+
+// filterSQL converts a filter to a SQL condition on the given metadata column
+func filterSQL(filter *FilterExpression, column string) (string, []interface{}, error) {
 	if filter == nil {
-		return "", nil
+		return "", nil, nil
 	}
-	
-	params := []interface{}{}
-	
+
+	field := "json_extract(" + column + ", ?)"
+	number := "CAST(" + field + " AS REAL)"
+	params := []interface{}{jsonPath(filter.Field)}
+
 	switch filter.Operator {
-	case FilterAND:
+	case FilterAND, FilterOR:
 		clauses := []string{}
+		params = []interface{}{}
 		for _, child := range filter.Children {
-			clause, childParams := BuildSQLFromFilter(child, paramIndex)
-			if clause != "" {
-				clauses = append(clauses, "("+clause+")")
-				params = append(params, childParams...)
+			clause, childParams, err := filterSQL(child, column)
+			if err != nil {
+				return "", nil, err
 			}
-		}
-		return strings.Join(clauses, " AND "), params
-		
-	case FilterOR:
-		clauses := []string{}
-		for _, child := range filter.Children {
-			clause, childParams := BuildSQLFromFilter(child, paramIndex)
 			if clause != "" {
 				clauses = append(clauses, "("+clause+")")
 				params = append(params, childParams...)
 			}
 		}
-		return strings.Join(clauses, " OR "), params
-		
+		if filter.Operator == FilterOR {
+			return strings.Join(clauses, " OR "), params, nil
+		}
+		return strings.Join(clauses, " AND "), params, nil
+
+	case FilterNOT:
+		if len(filter.Children) == 0 || filter.Children[0] == nil {
+			return "", nil, fmt.Errorf("filter operator NOT needs an operand")
+		}
+		clause, params, err := filterSQL(filter.Children[0], column)
+		if err != nil {
+			return "", nil, err
+		}
+		if clause == "" {
+			return "", nil, fmt.Errorf("filter operator NOT needs an operand")
+		}
+		// A missing field does not satisfy the operand
+		return "NOT COALESCE((" + clause + "), 0)", params, nil
+
 	case FilterEQ:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", filter.Field), params
-		
+		return field + " = ?", append(params, filter.Value), nil
+
 	case FilterNE:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') != ?", filter.Field), params
-		
+		return field + " != ?", append(params, filter.Value), nil
+
 	case FilterGT:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) > ?", filter.Field), params
-		
+		return number + " > ?", append(params, filter.Value), nil
+
 	case FilterGTE:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", filter.Field), params
-		
+		return number + " >= ?", append(params, filter.Value), nil
+
 	case FilterLT:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) < ?", filter.Field), params
-		
+		return number + " < ?", append(params, filter.Value), nil
+
 	case FilterLTE:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", filter.Field), params
-		
+		return number + " <= ?", append(params, filter.Value), nil
+
 	case FilterBETWEEN:
-		values := filter.Value.([]interface{})
-		*paramIndex += 2
-		params = append(params, values[0], values[1])
-		return fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) BETWEEN ? AND ?", filter.Field), params
-		
+		values, ok := filter.Value.([]interface{})
+		if !ok || len(values) != 2 {
+			return "", nil, fmt.Errorf("filter operator BETWEEN on %q needs two values", filter.Field)
+		}
+		return number + " BETWEEN ? AND ?", append(params, values[0], values[1]), nil
+
 	case FilterIN:
-		values := filter.Value.([]interface{})
+		values, ok := filter.Value.([]interface{})
+		if !ok {
+			return "", nil, fmt.Errorf("filter operator IN on %q needs a list of values", filter.Field)
+		}
 		placeholders := make([]string, len(values))
-		for i, v := range values {
-			*paramIndex++
+		for i := range values {
 			placeholders[i] = "?"
-			params = append(params, v)
 		}
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", 
-			filter.Field, strings.Join(placeholders, ",")), params
-		
+		return field + " IN (" + strings.Join(placeholders, ",") + ")", append(params, values...), nil
+
 	case FilterLIKE:
-		*paramIndex++
-		params = append(params, filter.Value)
-		return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", filter.Field), params
-		
+		return field + " LIKE ?", append(params, filter.Value), nil
+
 	default:
-		return "", nil
+		return "", nil, fmt.Errorf("unsupported filter operator %q", filter.Operator)
 	}
 }
 
@@ -533,8 +544,11 @@ func (s *SQLiteStore) SearchWithAdvancedFilter(ctx context.Context, query []floa
 	var params []interface{}
 	
 	if opts.PreFilter != nil {
-		paramIndex := 0
-		whereClause, params = BuildSQLFromFilter(opts.PreFilter, &paramIndex)
+		var err error
+		whereClause, params, err = filterSQL(opts.PreFilter, "e.metadata")
+		if err != nil {
+			return nil, wrapError("advanced_search", err)
+		}
 	}
 	
 	// Fetch candidates with pre-filter
@@ -588,7 +602,7 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 	conditions := []string{}
 	
 	if whereClause != "" {
-		conditions = append(conditions, whereClause)
+		conditions = append(conditions, "("+whereClause+")")
 	}
 	
 	if opts.Collection != "" {
@@ -674,7 +688,10 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		if !exists {
 			return false
 		}
-		values := filter.Value.([]interface{})
+		values, ok := filter.Value.([]interface{})
+		if !ok || len(values) != 2 {
+			return false
+		}
 		return compareValues(val, values[0], FilterGTE) && compareValues(val, values[1], FilterLTE)
 		
 	case FilterIN:
@@ -682,7 +699,7 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		if !exists {
 			return false
 		}
-		values := filter.Value.([]interface{})
+		values, _ := filter.Value.([]interface{})
 		for _, v := range values {
 			if compareValues(val, v, FilterEQ) {
 				return true
diff --git a/pkg/core/aggregations.go b/pkg/core/aggregations.go
index 6bc5992..d3283e8 100644
--- a/pkg/core/aggregations.go
+++ b/pkg/core/aggregations.go
@@ -115,15 +115,14 @@ func (s *SQLiteStore) aggregateSum(ctx context.Context, req AggregationRequest)
 	}
 
 	// Use JSON extraction for metadata field
-	query := fmt.Sprintf(`
+	query := `
 		SELECT 
-			SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as sum_value,
+			SUM(CAST(json_extract(metadata, ?) AS REAL)) as sum_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE json_extract(metadata, ?) IS NOT NULL`
 
-	args := []interface{}{}
+	args := []interface{}{jsonPath(req.Field), jsonPath(req.Field)}
 
 	// Add collection filter
 	if req.Collection != "" {
@@ -164,15 +163,14 @@ func (s *SQLiteStore) aggregateAvg(ctx context.Context, req AggregationRequest)
 		return nil, fmt.Errorf("field is required for AVG aggregation")
 	}
 
-	query := fmt.Sprintf(`
+	query := `
 		SELECT 
-			AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as avg_value,
+			AVG(CAST(json_extract(metadata, ?) AS REAL)) as avg_value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		req.Field, req.Field)
+		WHERE json_extract(metadata, ?) IS NOT NULL`
 
-	args := []interface{}{}
+	args := []interface{}{jsonPath(req.Field), jsonPath(req.Field)}
 
 	// Add collection filter
 	if req.Collection != "" {
@@ -220,13 +218,13 @@ func (s *SQLiteStore) aggregateMinMax(ctx context.Context, req AggregationReques
 
 	query := fmt.Sprintf(`
 		SELECT 
-			%s(CAST(json_extract(metadata, '$.%s') AS REAL)) as value,
+			%s(CAST(json_extract(metadata, ?) AS REAL)) as value,
 			COUNT(*) as count
 		FROM embeddings 
-		WHERE json_extract(metadata, '$.%s') IS NOT NULL`,
-		aggFunc, req.Field, req.Field)
+		WHERE json_extract(metadata, ?) IS NOT NULL`,
+		aggFunc)
 
-	args := []interface{}{}
+	args := []interface{}{jsonPath(req.Field), jsonPath(req.Field)}
 
 	// Add collection filter
 	if req.Collection != "" {
@@ -270,11 +268,12 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	// Build SELECT clause for group keys
 	selectClauses := []string{}
 	groupByClauses := []string{}
-	for _, field := range req.GroupBy {
-		selectClauses = append(selectClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s') as %s", field, field))
-		groupByClauses = append(groupByClauses, 
-			fmt.Sprintf("json_extract(metadata, '$.%s')", field))
+	args := []interface{}{}
+	for i, field := range req.GroupBy {
+		selectClauses = append(selectClauses,
+			fmt.Sprintf("json_extract(metadata, ?) as group_%d", i))
+		groupByClauses = append(groupByClauses, fmt.Sprintf("group_%d", i))
+		args = append(args, jsonPath(field))
 	}
 
 	// Add aggregation based on field
@@ -282,13 +281,17 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if req.Field != "" {
 		switch req.Type {
 		case AggregationSum:
-			aggClause = fmt.Sprintf("SUM(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = "SUM(CAST(json_extract(metadata, ?) AS REAL)) as agg_value"
+			args = append(args, jsonPath(req.Field))
 		case AggregationAvg:
-			aggClause = fmt.Sprintf("AVG(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = "AVG(CAST(json_extract(metadata, ?) AS REAL)) as agg_value"
+			args = append(args, jsonPath(req.Field))
 		case AggregationMin:
-			aggClause = fmt.Sprintf("MIN(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = "MIN(CAST(json_extract(metadata, ?) AS REAL)) as agg_value"
+			args = append(args, jsonPath(req.Field))
 		case AggregationMax:
-			aggClause = fmt.Sprintf("MAX(CAST(json_extract(metadata, '$.%s') AS REAL)) as agg_value", req.Field)
+			aggClause = "MAX(CAST(json_extract(metadata, ?) AS REAL)) as agg_value"
+			args = append(args, jsonPath(req.Field))
 		default:
 			aggClause = "COUNT(*) as agg_value"
 		}
@@ -304,8 +307,6 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 		joinStrings(selectClauses, ", "),
 		aggClause)
 
-	args := []interface{}{}
-
 	// Add collection filter
 	if req.Collection != "" {
 		query += ` AND collection_id = (SELECT id FROM collections WHERE name = ?)`
@@ -325,7 +326,11 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	if len(req.Having) > 0 {
 		havingClauses := []string{}
 		for field, value := range req.Having {
-			havingClauses = append(havingClauses, fmt.Sprintf("%s = ?", field))
+			column, err := groupColumn(req, field)
+			if err != nil {
+				return nil, err
+			}
+			havingClauses = append(havingClauses, column+" = ?")
 			args = append(args, value)
 		}
 		query += fmt.Sprintf(" HAVING %s", joinStrings(havingClauses, " AND "))
@@ -333,7 +338,11 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 
 	// Add ORDER BY clause
 	if req.OrderBy != "" {
-		query += fmt.Sprintf(" ORDER BY %s DESC", req.OrderBy)
+		column, err := groupColumn(req, req.OrderBy)
+		if err != nil {
+			return nil, err
+		}
+		query += " ORDER BY " + column + " DESC"
 	} else {
 		query += " ORDER BY count DESC"
 	}
@@ -400,6 +409,28 @@ func (s *SQLiteStore) aggregateGroupBy(ctx context.Context, req AggregationReque
 	}, rows.Err()
 }
 
+// groupColumn returns the result column of a GROUP BY aggregation that HAVING or
+// ORDER BY names: the count, the aggregated value or one of the group by fields
+func groupColumn(req AggregationRequest, name string) (string, error) {
+	switch name {
+	case "count":
+		return "count", nil
+	case "agg_value":
+		return "agg_value", nil
+	}
+	for i, field := range req.GroupBy {
+		if field == name {
+			return fmt.Sprintf("group_%d", i), nil
+		}
+	}
+	return "", fmt.Errorf("unknown result column %q", name)
+}
+
+// jsonPath returns the JSON path of a metadata field, to be bound as a parameter
+func jsonPath(field string) string {
+	return "$." + field
+}
+
 // validateAggregationRequest validates the aggregation request
 func validateAggregationRequest(req AggregationRequest) error {
 	if req.Type == "" {
@@ -425,8 +456,9 @@ func validateAggregationRequest(req AggregationRequest) error {
 // addMetadataFilters adds metadata filters to the query
 func addMetadataFilters(query string, args []interface{}, filters map[string]interface{}) (string, []interface{}, error) {
 	for field, value := range filters {
-		query += fmt.Sprintf(" AND json_extract(metadata, '$.%s') = ?", field)
-		
+		query += " AND json_extract(metadata, ?) = ?"
+		args = append(args, jsonPath(field))
+
 		// Convert value to appropriate SQL type
 		switch v := value.(type) {
 		case string:
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index f621873..446a15b 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -118,7 +118,7 @@ func (s *SQLiteStore) buildFacetedWhereClause(facets map[string]FacetFilter) (st
 	for field, filter := range facets {
 		condition, filterArgs := s.buildFilterCondition(field, filter)
 		if condition != "" {
-			conditions = append(conditions, condition)
+			conditions = append(conditions, "("+condition+")")
 			args = append(args, filterArgs...)
 		}
 	}
@@ -132,10 +132,11 @@ func (s *SQLiteStore) buildFacetedWhereClause(facets map[string]FacetFilter) (st
 
 // buildFilterCondition builds SQL condition for a single filter
 func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (string, []interface{}) {
+	path := jsonPath(field)
 	switch filter.Type {
 	case FilterTypeEquals:
 		if len(filter.Values) > 0 {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') = ?", field), filter.Values[:1]
+			return "json_extract(e.metadata, ?) = ?", []interface{}{path, filter.Values[0]}
 		}
 		
 	case FilterTypeIn:
@@ -144,7 +145,7 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 			for i := range placeholders {
 				placeholders[i] = "?"
 			}
-			return fmt.Sprintf("json_extract(metadata, '$.%s') IN (%s)", field, strings.Join(placeholders, ",")), filter.Values
+			return "json_extract(e.metadata, ?) IN (" + strings.Join(placeholders, ",") + ")", append([]interface{}{path}, filter.Values...)
 		}
 		
 	case FilterTypeRange:
@@ -152,12 +153,12 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 		args := []interface{}{}
 		
 		if filter.Min != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) >= ?", field))
-			args = append(args, filter.Min)
+			conditions = append(conditions, "CAST(json_extract(e.metadata, ?) AS REAL) >= ?")
+			args = append(args, path, filter.Min)
 		}
 		if filter.Max != nil {
-			conditions = append(conditions, fmt.Sprintf("CAST(json_extract(metadata, '$.%s') AS REAL) <= ?", field))
-			args = append(args, filter.Max)
+			conditions = append(conditions, "CAST(json_extract(e.metadata, ?) AS REAL) <= ?")
+			args = append(args, path, filter.Max)
 		}
 		
 		if len(conditions) > 0 {
@@ -166,16 +167,16 @@ func (s *SQLiteStore) buildFilterCondition(field string, filter FacetFilter) (st
 		
 	case FilterTypeContains:
 		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{"%" + filter.Pattern + "%"}
+			return "json_extract(e.metadata, ?) LIKE ?", []interface{}{path, "%" + filter.Pattern + "%"}
 		}
 		
 	case FilterTypePrefix:
 		if filter.Pattern != "" {
-			return fmt.Sprintf("json_extract(metadata, '$.%s') LIKE ?", field), []interface{}{filter.Pattern + "%"}
+			return "json_extract(e.metadata, ?) LIKE ?", []interface{}{path, filter.Pattern + "%"}
 		}
 		
 	case FilterTypeExists:
-		return fmt.Sprintf("json_extract(metadata, '$.%s') IS NOT NULL", field), nil
+		return "json_extract(e.metadata, ?) IS NOT NULL", []interface{}{path}
 		
 	case FilterTypeNested:
 		return s.buildNestedCondition(field, filter)
@@ -242,8 +243,8 @@ func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause
 	// Add metadata filter
 	if opts.Filter != nil {
 		for key, value := range opts.Filter {
-			conditions = append(conditions, fmt.Sprintf("json_extract(metadata, '$.%s') = ?", key))
-			args = append(args, value)
+			conditions = append(conditions, "json_extract(e.metadata, ?) = ?")
+			args = append(args, jsonPath(key), value)
 		}
 	}
 	
@@ -251,11 +252,6 @@ func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause
 		query += " WHERE " + strings.Join(conditions, " AND ")
 	}
 	
-	// Add limit for performance
-	if opts.TopK > 0 {
-		query += fmt.Sprintf(" LIMIT %d", opts.TopK*10) // Get more candidates for scoring
-	}
-	
 	rows, err := s.db.QueryContext(ctx, query, args...)
 	if err != nil {
 		return nil, fmt.Errorf("failed to query with facets: %w", err)
@@ -286,23 +282,26 @@ func (s *SQLiteStore) computeFacetCounts(ctx context.Context, opts FacetedSearch
 	
 	// For each facet field, count distinct values
 	for field := range opts.Facets {
-		query := fmt.Sprintf(`
+		query := `
 			SELECT 
-				json_extract(metadata, '$.%s') as value,
+				json_extract(metadata, ?) as value,
 				COUNT(*) as count
 			FROM embeddings
-			WHERE json_extract(metadata, '$.%s') IS NOT NULL
-			GROUP BY value
-			ORDER BY count DESC
-			LIMIT ?
-		`, field, field)
+			WHERE json_extract(metadata, ?) IS NOT NULL
+		`
+		args := []interface{}{jsonPath(field), jsonPath(field)}
+		if opts.Collection != "" {
+			query += " AND collection_id = (SELECT id FROM collections WHERE name = ?)"
+			args = append(args, opts.Collection)
+		}
+		query += " GROUP BY value ORDER BY count DESC LIMIT ?"
 		
 		limit := opts.MaxFacetValues
 		if limit <= 0 {
 			limit = 10
 		}
 		
-		rows, err := s.db.QueryContext(ctx, query, limit)
+		rows, err := s.db.QueryContext(ctx, query, append(args, limit)...)
 		if err != nil {
 			return nil, fmt.Errorf("failed to count facet %q: %w", field, err)
 		}
diff --git a/pkg/core/io.go b/pkg/core/io.go
index 450ce44..dec900f 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -9,7 +9,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"strings"
 	"time"
 
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
@@ -220,10 +219,12 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 
 	var args []interface{}
 	if opts.Filter != nil && !opts.Filter.IsEmpty() {
-		whereClause, params := opts.Filter.ToSQL()
+		// Prefix metadata with 'e.' to avoid ambiguity with collections table
+		whereClause, params, err := filterSQL(opts.Filter.expression, "e.metadata")
+		if err != nil {
+			return nil, wrapError("get_all_embeddings", err)
+		}
 		if whereClause != "" {
-			// Prefix metadata with 'e.' to avoid ambiguity with collections table
-			whereClause = strings.ReplaceAll(whereClause, "json_extract(metadata", "json_extract(e.metadata")
 			query += " WHERE " + whereClause
 			args = params
 		}
@@ -512,7 +513,7 @@ func (s *SQLiteStore) Backup(ctx context.Context, filepath string) error {
 	}
 
 	// Use SQLite backup API
-	_, err := s.db.ExecContext(ctx, fmt.Sprintf("VACUUM INTO '%s'", filepath))
+	_, err := s.db.ExecContext(ctx, "VACUUM INTO ?", filepath)
 	if err != nil {
 		return wrapError("backup", fmt.Errorf("failed to create backup: %w", err))
 	}
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index a136740..78b397b 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -401,7 +401,10 @@ func (s *SQLiteStore) DeleteByFilter(ctx context.Context, filter *MetadataFilter
 	}
 
 	// Build WHERE clause from filter
-	whereClause, params := filter.ToSQL()
+	whereClause, params, err := filterSQL(filter.expression, "metadata")
+	if err != nil {
+		return wrapError("delete_by_filter", err)
+	}
 	if whereClause == "" {
 		return wrapError("delete_by_filter", fmt.Errorf("failed to build filter"))
 	}
-- 
2.43.0


From 803026a30599d31c966d94477e8e61460585d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:26 +0000
Subject: [PATCH 16/48] fix: graph retrieval keeps to the requested collection

---
 pkg/cortexdb/graphrag.go       | 19 +++++++++++++++++
 pkg/cortexdb/graphrag_tools.go | 37 ++++++++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/pkg/cortexdb/graphrag.go b/pkg/cortexdb/graphrag.go
index d3029f1..ba9b26d 100644
--- a/pkg/cortexdb/graphrag.go
+++ b/pkg/cortexdb/graphrag.go
@@ -358,6 +358,18 @@ func (db *DB) InsertGraphDocument(ctx context.Context, doc GraphRAGDocument, opt
 	}, nil
 }
 
+// chunkInCollection reports whether the chunk is stored in the given collection.
+func (db *DB) chunkInCollection(ctx context.Context, chunkID string, collection string) (bool, error) {
+	emb, err := db.store.GetByID(ctx, chunkID)
+	if errors.Is(err, core.ErrNotFound) {
+		return false, nil
+	}
+	if err != nil {
+		return false, err
+	}
+	return emb.Collection == collection, nil
+}
+
 // SearchGraphRAG performs seed chunk retrieval plus graph neighborhood expansion.
 func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQueryOptions) (*GraphRAGQueryResult, error) {
 	if db.embedder == nil {
@@ -423,6 +435,13 @@ func (db *DB) SearchGraphRAG(ctx context.Context, query string, opts GraphRAGQue
 				if _, isSeed := seedIDs[neighbor.ID]; isSeed {
 					continue
 				}
+				inCollection, err := db.chunkInCollection(ctx, neighbor.ID, opts.Collection)
+				if err != nil {
+					return nil, fmt.Errorf("check related chunk: %w", err)
+				}
+				if !inCollection {
+					continue
+				}
 				related := chunkResults[neighbor.ID]
 				if related == nil {
 					related = &GraphRAGChunkResult{
diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 34ab012..797d0fa 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -779,7 +779,7 @@ func (t *GraphRAGToolbox) SearchText(ctx context.Context, req ToolSearchTextRequ
 	if err != nil {
 		return nil, err
 	}
-	chunks, err := t.loadToolChunks(ctx, scoredEmbeddingsToMap(results), scoredEmbeddingsOrder(results), shouldLoadChunkEntities(req.RetrievalMode, req.DisableGraph, req.Query))
+	chunks, err := t.loadToolChunks(ctx, scoredEmbeddingsToMap(results), scoredEmbeddingsOrder(results), shouldLoadChunkEntities(req.RetrievalMode, req.DisableGraph, req.Query), req.Collection)
 	if err != nil {
 		return nil, err
 	}
@@ -852,6 +852,12 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 
 // SearchChunksByEntities finds chunks that are linked to the requested entities.
 func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSearchChunksByEntitiesRequest) (*ToolSearchChunksByEntitiesResponse, error) {
+	return t.searchChunksByEntities(ctx, req, "")
+}
+
+// searchChunksByEntities restricts the linked chunks to one collection unless
+// collection is empty.
+func (t *GraphRAGToolbox) searchChunksByEntities(ctx context.Context, req ToolSearchChunksByEntitiesRequest, collection string) (*ToolSearchChunksByEntitiesResponse, error) {
 	if len(req.EntityNames) == 0 {
 		return &ToolSearchChunksByEntitiesResponse{}, nil
 	}
@@ -880,13 +886,16 @@ func (t *GraphRAGToolbox) SearchChunksByEntities(ctx context.Context, req ToolSe
 	}
 
 	ordered := sortIDsByScore(scoreMap)
-	if len(ordered) > req.TopK {
+	if collection == "" && len(ordered) > req.TopK {
 		ordered = ordered[:req.TopK]
 	}
-	chunks, err := t.loadToolChunks(ctx, scoreMap, ordered, true)
+	chunks, err := t.loadToolChunks(ctx, scoreMap, ordered, true, collection)
 	if err != nil {
 		return nil, err
 	}
+	if len(chunks) > req.TopK {
+		chunks = chunks[:req.TopK]
+	}
 	return &ToolSearchChunksByEntitiesResponse{Chunks: chunks}, nil
 }
 
@@ -939,7 +948,7 @@ func (t *GraphRAGToolbox) GetNodes(ctx context.Context, req ToolGetNodesRequest)
 
 // GetChunks fetches chunk records by ID.
 func (t *GraphRAGToolbox) GetChunks(ctx context.Context, req ToolGetChunksRequest) (*ToolGetChunksResponse, error) {
-	chunks, err := t.loadToolChunks(ctx, nil, req.ChunkIDs, shouldLoadChunkEntities(req.RetrievalMode, req.DisableGraph, ""))
+	chunks, err := t.loadToolChunks(ctx, nil, req.ChunkIDs, shouldLoadChunkEntities(req.RetrievalMode, req.DisableGraph, ""), "")
 	if err != nil {
 		return nil, err
 	}
@@ -948,7 +957,7 @@ func (t *GraphRAGToolbox) GetChunks(ctx context.Context, req ToolGetChunksReques
 
 // BuildContext packs chunk text into a bounded context string.
 func (t *GraphRAGToolbox) BuildContext(ctx context.Context, req ToolBuildContextRequest) (*ToolBuildContextResponse, error) {
-	chunks, err := t.loadToolChunks(ctx, nil, req.ChunkIDs, shouldLoadChunkEntities(req.RetrievalMode, req.DisableGraph, ""))
+	chunks, err := t.loadToolChunks(ctx, nil, req.ChunkIDs, shouldLoadChunkEntities(req.RetrievalMode, req.DisableGraph, ""), "")
 	if err != nil {
 		return nil, err
 	}
@@ -1055,11 +1064,11 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 	}
 
 	if useGraph && len(entityNames) > 0 {
-		entityResp, err := t.SearchChunksByEntities(ctx, ToolSearchChunksByEntitiesRequest{
+		entityResp, err := t.searchChunksByEntities(ctx, ToolSearchChunksByEntitiesRequest{
 			EntityNames: entityNames,
 			TopK:        opts.TopK,
 			MaxHops:     opts.MaxHops,
-		})
+		}, opts.Collection)
 		if err != nil {
 			return nil, err
 		}
@@ -1106,6 +1115,13 @@ func (t *GraphRAGToolbox) SearchGraphRAGLexical(ctx context.Context, req ToolSea
 			case "entity":
 				entitySet[node.Content] = struct{}{}
 			case "chunk":
+				inCollection, err := t.db.chunkInCollection(ctx, node.ID, opts.Collection)
+				if err != nil {
+					return nil, err
+				}
+				if !inCollection {
+					continue
+				}
 				chunk := ToolChunk{
 					ID:      node.ID,
 					Content: node.Content,
@@ -1214,7 +1230,9 @@ func lexicalVectorForText(text string, dim int) []float32 {
 	return vector
 }
 
-func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[string]float64, orderedIDs []string, includeEntities bool) ([]ToolChunk, error) {
+// loadToolChunks loads chunk records in order; a non-empty collection leaves out
+// chunks stored in any other collection.
+func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[string]float64, orderedIDs []string, includeEntities bool, collection string) ([]ToolChunk, error) {
 	chunks := make([]ToolChunk, 0, len(orderedIDs))
 	for _, chunkID := range orderedIDs {
 		emb, err := t.db.store.GetByID(ctx, chunkID)
@@ -1224,6 +1242,9 @@ func (t *GraphRAGToolbox) loadToolChunks(ctx context.Context, scoreMap map[strin
 		if err != nil {
 			return nil, err
 		}
+		if collection != "" && emb.Collection != collection {
+			continue
+		}
 		var entities []string
 		if includeEntities {
 			entities, err = t.getChunkEntityNames(ctx, chunkID)
-- 
2.43.0


From 5991e605bf8e994e90c2f5afcfc05322ab92e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:19 +0000
Subject: [PATCH 17/48] fix: updating an embedding no longer leaves its old
 text in the full-text index

---
 pkg/core/multi_vector.go | 10 +++++++++-
 pkg/core/store_crud.go   | 23 ++++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index c59c051..72f217d 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -95,8 +95,16 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 		}
 		
 		_, err = tx.ExecContext(ctx, `
-			INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, created_at)
+			INSERT INTO embeddings (id, collection_id, vector, content, doc_id, metadata, created_at)
 			VALUES (?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
+			ON CONFLICT(id) DO UPDATE SET
+				collection_id = excluded.collection_id,
+				vector = excluded.vector,
+				content = excluded.content,
+				doc_id = excluded.doc_id,
+				metadata = excluded.metadata,
+				acl = excluded.acl,
+				created_at = excluded.created_at
 		`, compositeID, 1, vectorBytes, entity.Content, entity.ID, string(metadataJSON))
 		
 		if err != nil {
diff --git a/pkg/core/store_crud.go b/pkg/core/store_crud.go
index 78b397b..25cd9ee 100644
--- a/pkg/core/store_crud.go
+++ b/pkg/core/store_crud.go
@@ -122,10 +122,19 @@ func (s *SQLiteStore) Upsert(ctx context.Context, emb *Embedding) error {
 		docID.Valid = true
 	}
 
-	// Insert or replace
+	// Insert or update in place: a replaced row would leave its old text in the
+	// full-text index, because REPLACE does not run the delete trigger
 	query := `
-	INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, acl, created_at)
+	INSERT INTO embeddings (id, collection_id, vector, content, doc_id, metadata, acl, created_at)
 	VALUES (?, ?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
+	ON CONFLICT(id) DO UPDATE SET
+		collection_id = excluded.collection_id,
+		vector = excluded.vector,
+		content = excluded.content,
+		doc_id = excluded.doc_id,
+		metadata = excluded.metadata,
+		acl = excluded.acl,
+		created_at = excluded.created_at
 	`
 
 	_, err = s.db.ExecContext(ctx, query, emb.ID, collectionID, vectorBytes, emb.Content, docID, metadataJSON, aclJSON)
@@ -167,8 +176,16 @@ func (s *SQLiteStore) UpsertBatch(ctx context.Context, embs []*Embedding) error
 
 	// Prepare statement
 	stmt, err := tx.PrepareContext(ctx, `
-		INSERT OR REPLACE INTO embeddings (id, collection_id, vector, content, doc_id, metadata, acl, created_at)
+		INSERT INTO embeddings (id, collection_id, vector, content, doc_id, metadata, acl, created_at)
 		VALUES (?, ?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
+		ON CONFLICT(id) DO UPDATE SET
+			collection_id = excluded.collection_id,
+			vector = excluded.vector,
+			content = excluded.content,
+			doc_id = excluded.doc_id,
+			metadata = excluded.metadata,
+			acl = excluded.acl,
+			created_at = excluded.created_at
 	`)
 	if err != nil {
 		return wrapError("upsert_batch", fmt.Errorf("failed to prepare statement: %w", err))
-- 
2.43.0


From fa0a28a023f62d386f15b7a8ffdf484b10a30616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:30 +0000
Subject: [PATCH 18/48] fix: store multi-vector entities without a dangling
 document reference

---
 pkg/core/multi_vector.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/core/multi_vector.go b/pkg/core/multi_vector.go
index 72f217d..ce5b84f 100644
--- a/pkg/core/multi_vector.go
+++ b/pkg/core/multi_vector.go
@@ -95,8 +95,8 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 		}
 		
 		_, err = tx.ExecContext(ctx, `
-			INSERT INTO embeddings (id, collection_id, vector, content, doc_id, metadata, created_at)
-			VALUES (?, ?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
+			INSERT INTO embeddings (id, collection_id, vector, content, metadata, created_at)
+			VALUES (?, ?, ?, ?, ?, CURRENT_TIMESTAMP)
 			ON CONFLICT(id) DO UPDATE SET
 				collection_id = excluded.collection_id,
 				vector = excluded.vector,
@@ -105,7 +105,7 @@ func (s *SQLiteStore) UpsertMultiVector(ctx context.Context, entity *MultiVector
 				metadata = excluded.metadata,
 				acl = excluded.acl,
 				created_at = excluded.created_at
-		`, compositeID, 1, vectorBytes, entity.Content, entity.ID, string(metadataJSON))
+		`, compositeID, 1, vectorBytes, entity.Content, string(metadataJSON))
 		
 		if err != nil {
 			return wrapError("upsert_multi_vector", err)
-- 
2.43.0


From 85c5210b92e4c3142557effd4e388b4c929928c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:13 +0000
Subject: [PATCH 19/48] fix: keep an embedding's ACL when it is read, dumped
 and restored

---
 pkg/core/advanced_filter.go |  2 +-
 pkg/core/advanced_search.go | 12 +++++++++---
 pkg/core/faceted_search.go  |  2 +-
 pkg/core/io.go              |  3 ++-
 pkg/core/store_query.go     | 20 +++++++++++++++-----
 pkg/core/store_search.go    | 17 +++++++++++++----
 6 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 502337c..81a98fe 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -594,7 +594,7 @@ func (s *SQLiteStore) SearchWithAdvancedFilter(ctx context.Context, query []floa
 // fetchCandidatesWithSQL fetches candidates with custom SQL WHERE clause
 func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause string, params []interface{}, opts SearchOptions) ([]ScoredEmbedding, error) {
 	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
+		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.acl
 		FROM embeddings e
 		LEFT JOIN collections c ON e.collection_id = c.id
 	`
diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index a578271..61f9cdb 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -4,6 +4,7 @@ package core
 import (
 	"context"
 	"database/sql"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"math"
@@ -148,7 +149,7 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 		}
 
 		query := fmt.Sprintf(
-			"SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.rowid "+
+			"SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.rowid "+
 				"FROM embeddings e "+
 				"LEFT JOIN collections c ON e.collection_id = c.id "+
 				"WHERE e.rowid IN (%s)",
@@ -165,16 +166,20 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 			var docID sql.NullString
 			var collectionName sql.NullString
 			var collectionID int
-			var vectorBytes []byte
+			var vectorBytes, aclJSON []byte
 			var rowid int64
 
-			if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &rowid); err != nil {
+			if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &aclJSON, &rowid); err != nil {
 				s.logger.Warn("failed to scan full-text match during hybrid search", "error", err)
 				continue
 			}
 
 			vec, _ := encoding.DecodeVector(vectorBytes)
 			meta, _ := encoding.DecodeMetadata(metadataJSON)
+			var acl []string
+			if len(aclJSON) > 0 {
+				_ = json.Unmarshal(aclJSON, &acl)
+			}
 			emb := Embedding{
 				ID:         id,
 				Collection: collectionName.String,
@@ -182,6 +187,7 @@ func (s *SQLiteStore) HybridSearch(ctx context.Context, vectorQuery []float32, t
 				Content:    content,
 				DocID:      docID.String,
 				Metadata:   meta,
+				ACL:        acl,
 			}
 
 			// The full-text matches come from the whole store: keep only
diff --git a/pkg/core/faceted_search.go b/pkg/core/faceted_search.go
index 446a15b..b6ca5f7 100644
--- a/pkg/core/faceted_search.go
+++ b/pkg/core/faceted_search.go
@@ -222,7 +222,7 @@ func (s *SQLiteStore) buildNestedCondition(field string, filter FacetFilter) (st
 // fetchCandidatesWithFacets fetches candidates with facet filtering
 func (s *SQLiteStore) fetchCandidatesWithFacets(ctx context.Context, whereClause string, args []interface{}, opts FacetedSearchOptions) ([]ScoredEmbedding, error) {
 	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
+		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.acl
 		FROM embeddings e
 		LEFT JOIN collections c ON e.collection_id = c.id
 	`
diff --git a/pkg/core/io.go b/pkg/core/io.go
index dec900f..f5699f4 100644
--- a/pkg/core/io.go
+++ b/pkg/core/io.go
@@ -212,7 +212,7 @@ func (s *SQLiteStore) dumpCSV(ctx context.Context, w io.Writer, opts DumpOptions
 // getAllEmbeddings retrieves all embeddings with optional filtering
 func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([]*Embedding, error) {
 	query := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata
+		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.acl
 		FROM embeddings e
 		LEFT JOIN collections c ON e.collection_id = c.id
 	`
@@ -252,6 +252,7 @@ func (s *SQLiteStore) getAllEmbeddings(ctx context.Context, opts DumpOptions) ([
 			Content:      scoredEmb.Content,
 			DocID:        scoredEmb.DocID,
 			Metadata:     scoredEmb.Metadata,
+			ACL:          scoredEmb.ACL,
 		}
 
 		if !opts.IncludeVectors {
diff --git a/pkg/core/store_query.go b/pkg/core/store_query.go
index af14ccf..3852952 100644
--- a/pkg/core/store_query.go
+++ b/pkg/core/store_query.go
@@ -64,7 +64,13 @@ func (s *SQLiteStore) GetByDocID(ctx context.Context, docID string) ([]*Embeddin
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("doc ID cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings WHERE doc_id = ? ORDER BY created_at"
+	query := `
+		SELECT
+			e.id, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.created_at,
+			COALESCE(c.name, '') as collection_name
+		FROM embeddings e
+		LEFT JOIN collections c ON e.collection_id = c.id
+		WHERE e.doc_id = ? ORDER BY e.created_at`
 	rows, err := s.db.QueryContext(ctx, query, docID)
 	if err != nil {
 		return nil, wrapError("get_by_doc_id", fmt.Errorf("failed to query embeddings: %w", err))
@@ -198,7 +204,13 @@ func (s *SQLiteStore) GetDocumentsByType(ctx context.Context, docType string) ([
 		return nil, wrapError("get_documents_by_type", fmt.Errorf("doc type cannot be empty"))
 	}
 
-	query := "SELECT id, vector, content, doc_id, metadata FROM embeddings ORDER BY created_at"
+	query := `
+		SELECT
+			e.id, e.vector, e.content, e.doc_id, e.metadata, e.acl, e.created_at,
+			COALESCE(c.name, '') as collection_name
+		FROM embeddings e
+		LEFT JOIN collections c ON e.collection_id = c.id
+		ORDER BY e.created_at`
 	rows, err := s.db.QueryContext(ctx, query)
 	if err != nil {
 		return nil, wrapError("get_documents_by_type", fmt.Errorf("failed to query embeddings: %w", err))
@@ -245,10 +257,8 @@ func (s *SQLiteStore) scanEmbeddingForGet(rows *sql.Rows) (*Embedding, error) {
 
 	var err error
 
-	if len(cols) == 8 { // GetByID format
+	if len(cols) == 8 {
 		err = rows.Scan(&id, &vectorBytes, &content, &docID, &metadataJSON, &aclJSON, &createdAt, &collectionName)
-	} else if len(cols) == 5 { // Old format (GetByDocID)
-		err = rows.Scan(&id, &vectorBytes, &content, &docID, &metadataJSON)
 	} else {
 		return nil, fmt.Errorf("unexpected column count: %d", len(cols))
 	}
diff --git a/pkg/core/store_search.go b/pkg/core/store_search.go
index 6ecf191..da8caf4 100644
--- a/pkg/core/store_search.go
+++ b/pkg/core/store_search.go
@@ -3,6 +3,7 @@ package core
 import (
 	"context"
 	"database/sql"
+	"encoding/json"
 	"fmt"
 	"math"
 	"sort"
@@ -257,7 +258,7 @@ func (s *SQLiteStore) fetchEmbeddingsByIDs(ctx context.Context, ids []string) ([
 	}
 
 	query := fmt.Sprintf(
-		"SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata "+
+		"SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, e.acl "+
 			"FROM embeddings e "+
 			"LEFT JOIN collections c ON e.collection_id = c.id "+
 			"WHERE e.id IN (%s)",
@@ -308,7 +309,7 @@ func (s *SQLiteStore) validateSearchInput(query []float32, opts SearchOptions) e
 
 // buildSearchQuery builds SQL query with filtering
 func (s *SQLiteStore) buildSearchQuery(opts SearchOptions) (string, []interface{}) {
-	querySQL := "SELECT e.id, e.collection_id, c.name as collection_name, e.vector, e.content, e.doc_id, e.metadata FROM embeddings e LEFT JOIN collections c ON e.collection_id = c.id"
+	querySQL := "SELECT e.id, e.collection_id, c.name as collection_name, e.vector, e.content, e.doc_id, e.metadata, e.acl FROM embeddings e LEFT JOIN collections c ON e.collection_id = c.id"
 	args := []interface{}{}
 
 	var conditions []string
@@ -379,9 +380,9 @@ func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
 	var docID sql.NullString
 	var collectionName sql.NullString
 	var collectionID int
-	var vectorBytes []byte
+	var vectorBytes, aclJSON []byte
 
-	if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON); err != nil {
+	if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &aclJSON); err != nil {
 		return ScoredEmbedding{}, fmt.Errorf("failed to scan row: %w", err)
 	}
 
@@ -395,6 +396,13 @@ func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
 		metadata = nil // Continue with nil metadata
 	}
 
+	var acl []string
+	if len(aclJSON) > 0 {
+		if err := json.Unmarshal(aclJSON, &acl); err != nil {
+			return ScoredEmbedding{}, fmt.Errorf("failed to decode ACL: %w", err)
+		}
+	}
+
 	var collection string
 	if collectionName.Valid {
 		collection = collectionName.String
@@ -408,6 +416,7 @@ func (s *SQLiteStore) scanEmbedding(rows *sql.Rows) (ScoredEmbedding, error) {
 			Content:    content,
 			DocID:      docID.String, // Will be empty if invalid
 			Metadata:   metadata,
+			ACL:        acl,
 		},
 		Score: 0, // Will be set later
 	}, nil
-- 
2.43.0


From 3f0a52083fdd8ea10eb53c7343a960f051aaf607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:27 +0000
Subject: [PATCH 20/48] fix: drop a saved index snapshot together with the
 first change it does not contain

---
 pkg/core/store_index.go |  7 ++++---
 pkg/core/store_init.go  | 13 +++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/core/store_index.go b/pkg/core/store_index.go
index 37309bb..5e28986 100644
--- a/pkg/core/store_index.go
+++ b/pkg/core/store_index.go
@@ -571,9 +571,10 @@ func (s *SQLiteStore) startAutoSave() {
 // autoSaveLoop runs the periodic save loop
 func (s *SQLiteStore) autoSaveLoop() {
 	// Hold the lock until the next save is scheduled, so that Close cannot
-	// release the database in between.
-	s.mu.RLock()
-	defer s.mu.RUnlock()
+	// release the database in between, and no vector changes between reading
+	// the index and storing its snapshot.
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	if s.closed {
 		return
diff --git a/pkg/core/store_init.go b/pkg/core/store_init.go
index c6f6423..c83a0d8 100644
--- a/pkg/core/store_init.go
+++ b/pkg/core/store_init.go
@@ -181,6 +181,19 @@ func (s *SQLiteStore) createTables(ctx context.Context) error {
 	  INSERT INTO chunks_fts(chunks_fts, rowid, content) VALUES('delete', old.rowid, old.content);
 	  INSERT INTO chunks_fts(rowid, content) VALUES (new.rowid, new.content);
 	END;
+
+	-- A saved index no longer matches the vectors once one of them changes.
+	-- It is dropped together with the change, so that a store that is not
+	-- closed properly rebuilds its index instead of loading a stale one.
+	CREATE TRIGGER IF NOT EXISTS embeddings_snapshot_ai AFTER INSERT ON embeddings BEGIN
+	  DELETE FROM index_snapshots WHERE type IN ('HNSW', 'IVF');
+	END;
+	CREATE TRIGGER IF NOT EXISTS embeddings_snapshot_ad AFTER DELETE ON embeddings BEGIN
+	  DELETE FROM index_snapshots WHERE type IN ('HNSW', 'IVF');
+	END;
+	CREATE TRIGGER IF NOT EXISTS embeddings_snapshot_au AFTER UPDATE OF id, vector ON embeddings BEGIN
+	  DELETE FROM index_snapshots WHERE type IN ('HNSW', 'IVF');
+	END;
 	`
 
 	_, err := s.db.ExecContext(ctx, createTableSQL)
-- 
2.43.0


From b449df1ed578e7b20e42b6e3e66b53ac6c48ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:05 +0000
Subject: [PATCH 21/48] fix: keep the graph's vector index in step with batch
 writes and deletes

---
 pkg/graph/graph_batch.go | 44 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index 427f389..c710944 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -60,6 +60,7 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 	defer func() { _ = stmt.Close() }()
 	
 	// Process each node
+	stored := make([]*GraphNode, 0, len(nodes))
 	for _, node := range nodes {
 		if node == nil || node.ID == "" {
 			result.Errors = append(result.Errors, fmt.Errorf("invalid node: missing ID"))
@@ -106,6 +107,7 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 			result.FailedCount++
 		} else {
 			result.SuccessCount++
+			stored = append(stored, node)
 		}
 	}
 	
@@ -114,6 +116,8 @@ func (g *GraphStore) UpsertNodesBatch(ctx context.Context, nodes []*GraphNode) (
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	g.indexNodes(stored)
+	
 	return result, nil
 }
 
@@ -162,6 +166,8 @@ func (g *GraphStore) DeleteNodesBatch(ctx context.Context, nodeIDs []string) (*B
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	g.unindexNodes(nodeIDs)
+	
 	return result, nil
 }
 
@@ -474,11 +480,13 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 	defer func() { _ = tx.Rollback() }()
 	
 	// Process node upserts
+	var stored []*GraphNode
 	if len(ops.NodeUpserts) > 0 {
-		nodeResult, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
+		nodeResult, upserted, err := g.upsertNodesBatchTx(ctx, tx, ops.NodeUpserts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to upsert nodes: %w", err)
 		}
+		stored = upserted
 		result.SuccessCount += nodeResult.SuccessCount
 		result.FailedCount += nodeResult.FailedCount
 		result.Errors = append(result.Errors, nodeResult.Errors...)
@@ -520,13 +528,40 @@ func (g *GraphStore) ExecuteBatch(ctx context.Context, ops *BatchGraphOperation)
 		return nil, fmt.Errorf("failed to commit transaction: %w", err)
 	}
 	
+	g.indexNodes(stored)
+	g.unindexNodes(ops.NodeDeletes)
+	
 	return result, nil
 }
 
+// indexNodes puts nodes that have been stored into the vector index, if there is one
+func (g *GraphStore) indexNodes(nodes []*GraphNode) {
+	idx := g.vectorIndex()
+	if idx == nil {
+		return
+	}
+	for _, node := range nodes {
+		idx.index.Remove(node.ID)
+		_ = idx.index.Add(node.ID, node.Vector)
+	}
+}
+
+// unindexNodes removes nodes that have been deleted from the vector index, if there is one
+func (g *GraphStore) unindexNodes(nodeIDs []string) {
+	idx := g.vectorIndex()
+	if idx == nil {
+		return
+	}
+	for _, id := range nodeIDs {
+		idx.index.Remove(id)
+	}
+}
+
 // Helper functions for transaction-based operations
 
-func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, error) {
+func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes []*GraphNode) (*BatchResult, []*GraphNode, error) {
 	result := &BatchResult{Errors: make([]error, 0)}
+	stored := make([]*GraphNode, 0, len(nodes))
 	
 	stmt, err := tx.PrepareContext(ctx, `
 		INSERT INTO graph_nodes (id, vector, content, node_type, properties, updated_at)
@@ -539,7 +574,7 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			updated_at = CURRENT_TIMESTAMP
 	`)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	defer func() { _ = stmt.Close() }()
 	
@@ -561,10 +596,11 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			result.Errors = append(result.Errors, err)
 		} else {
 			result.SuccessCount++
+			stored = append(stored, node)
 		}
 	}
 	
-	return result, nil
+	return result, stored, nil
 }
 
 func (g *GraphStore) deleteNodesBatchTx(ctx context.Context, tx *sql.Tx, nodeIDs []string) (*BatchResult, error) {
-- 
2.43.0


From 9a8efd4acbaec7c1ba78407af708f295622e34a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:38 +0000
Subject: [PATCH 22/48] fix: ExecuteBatch reports nodes and edges whose vector
 or properties cannot be encoded

---
 pkg/graph/graph_batch.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/graph/graph_batch.go b/pkg/graph/graph_batch.go
index c710944..7104980 100644
--- a/pkg/graph/graph_batch.go
+++ b/pkg/graph/graph_batch.go
@@ -584,10 +584,20 @@ func (g *GraphStore) upsertNodesBatchTx(ctx context.Context, tx *sql.Tx, nodes [
 			continue
 		}
 		
-		vectorBytes, _ := encoding.EncodeVector(node.Vector)
+		vectorBytes, err := encoding.EncodeVector(node.Vector)
+		if err != nil {
+			result.Errors = append(result.Errors, fmt.Errorf("failed to encode vector for %s: %w", node.ID, err))
+			result.FailedCount++
+			continue
+		}
 		var propertiesJSON []byte
 		if node.Properties != nil {
-			propertiesJSON, _ = json.Marshal(node.Properties)
+			propertiesJSON, err = json.Marshal(node.Properties)
+			if err != nil {
+				result.Errors = append(result.Errors, fmt.Errorf("failed to encode properties for %s: %w", node.ID, err))
+				result.FailedCount++
+				continue
+			}
 		}
 		
 		_, err = stmt.ExecContext(ctx, node.ID, vectorBytes, node.Content, node.NodeType, string(propertiesJSON))
@@ -661,12 +671,22 @@ func (g *GraphStore) upsertEdgesBatchTx(ctx context.Context, tx *sql.Tx, edges [
 		
 		var propertiesJSON []byte
 		if edge.Properties != nil {
-			propertiesJSON, _ = json.Marshal(edge.Properties)
+			propertiesJSON, err = json.Marshal(edge.Properties)
+			if err != nil {
+				result.Errors = append(result.Errors, fmt.Errorf("failed to encode properties for %s: %w", edge.ID, err))
+				result.FailedCount++
+				continue
+			}
 		}
 		
 		var vectorBytes []byte
 		if len(edge.Vector) > 0 {
-			vectorBytes, _ = encoding.EncodeVector(edge.Vector)
+			vectorBytes, err = encoding.EncodeVector(edge.Vector)
+			if err != nil {
+				result.Errors = append(result.Errors, fmt.Errorf("failed to encode vector for %s: %w", edge.ID, err))
+				result.FailedCount++
+				continue
+			}
 		}
 		
 		_, err = stmt.ExecContext(ctx, edge.ID, edge.FromNodeID, edge.ToNodeID, edge.EdgeType, edge.Weight, string(propertiesJSON), vectorBytes)
-- 
2.43.0


From 2bb130924e449b6a2abd67e5f884a688974d77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 23/48] fix: memory buckets of different owner and namespace
 pairs no longer share an ID

---
 pkg/cortexdb/memory_api.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index 614fc70..f95a022 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -424,17 +424,21 @@ func resolveMemoryBucket(scope, userID, sessionID, namespace string) (string, st
 		if strings.TrimSpace(userID) == "" {
 			return "", "", fmt.Errorf("user_id is required for %s scope", scope)
 		}
-		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, userID, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, userID, memoryKeyEscaper.Replace(namespace)), nil
 	case MemoryScopeSession:
 		if strings.TrimSpace(sessionID) == "" {
 			return "", "", fmt.Errorf("session_id is required for %s scope", scope)
 		}
-		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, sessionID, namespace), nil
+		return scope, fmt.Sprintf("memory:%s:%s:%s", scope, sessionID, memoryKeyEscaper.Replace(namespace)), nil
 	default:
 		return "", "", fmt.Errorf("unsupported memory scope: %s", scope)
 	}
 }
 
+// memoryKeyEscaper keeps the separator out of the last part of a bucket ID, so that different
+// owner and namespace pairs never share a bucket
+var memoryKeyEscaper = strings.NewReplacer("%", "%25", ":", "%3A")
+
 func normalizeMemoryNamespace(namespace string) string {
 	namespace = strings.TrimSpace(namespace)
 	if namespace == "" {
-- 
2.43.0


From 3e53137757d0c261994ae9008b68cb9caa529bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 24/48] fix: SearchWithACL and SearchWithAdvancedFilter honour
 the metadata filter of their options

---
 pkg/core/advanced_filter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 81a98fe..15fe3a1 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -627,6 +627,9 @@ func (s *SQLiteStore) fetchCandidatesWithSQL(ctx context.Context, whereClause st
 			s.logger.Warn("failed to scan embedding during filtered search", "error", err)
 			continue
 		}
+		if !s.matchesFilter(candidate.Embedding, opts.Filter) {
+			continue
+		}
 		candidates = append(candidates, candidate)
 	}
 	
-- 
2.43.0


From 6111891b67f97a5487c986394af349afb97c5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:22 +0000
Subject: [PATCH 25/48] fix: additional metadata of a memory cannot move it to
 another bank

---
 pkg/hindsight/hindsight.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index f613b16..0b1a813 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -179,6 +179,12 @@ func (s *System) getCollection() string {
 func (s *System) buildMetadata(mem *Memory) map[string]string {
 	metadata := make(map[string]string)
 
+	// Copy additional metadata (convert to string) first: it must not
+	// replace the core metadata, which decides the bank of the memory
+	for k, v := range mem.Metadata {
+		metadata[k] = fmt.Sprintf("%v", v)
+	}
+
 	// Core metadata
 	metadata["bank_id"] = mem.BankID
 	metadata["memory_type"] = string(mem.Type)
@@ -194,11 +200,6 @@ func (s *System) buildMetadata(mem *Memory) map[string]string {
 		metadata["entities"] = strings.Join(mem.Entities, ",")
 	}
 
-	// Copy additional metadata (convert to string)
-	for k, v := range mem.Metadata {
-		metadata[k] = fmt.Sprintf("%v", v)
-	}
-
 	return metadata
 }
 
-- 
2.43.0


From 067594cc8d7eb7946273bc17a1f0385d30e5cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:21 +0000
Subject: [PATCH 26/48] fix: apply SearchOptions.Threshold in ACL, filtered,
 negative-example and unranked searches

---
 pkg/core/advanced_filter.go |  3 +++
 pkg/core/advanced_search.go | 14 ++++++++++++++
 pkg/core/reranker.go        |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 15fe3a1..03f08cb 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -561,6 +561,9 @@ func (s *SQLiteStore) SearchWithAdvancedFilter(ctx context.Context, query []floa
 	results := make([]ScoredEmbedding, 0, len(candidates))
 	for _, candidate := range candidates {
 		score := s.similarityFn(query, candidate.Vector)
+		if opts.Threshold > 0 && score < opts.Threshold {
+			continue
+		}
 		candidate.Score = score
 		
 		// Apply post-filter if specified
diff --git a/pkg/core/advanced_search.go b/pkg/core/advanced_search.go
index 61f9cdb..c60f50f 100644
--- a/pkg/core/advanced_search.go
+++ b/pkg/core/advanced_search.go
@@ -241,6 +241,9 @@ func (s *SQLiteStore) scoreAndSort(query []float32, candidates []ScoredEmbedding
 	results := make([]ScoredEmbedding, 0, len(candidates))
 	for _, candidate := range candidates {
 		score := s.similarityFn(query, candidate.Vector)
+		if opts.Threshold > 0 && score < opts.Threshold {
+			continue
+		}
 		candidate.Score = score
 		results = append(results, candidate)
 	}
@@ -353,6 +356,17 @@ func (s *SQLiteStore) SearchWithNegatives(ctx context.Context, opts NegativeSear
 		candidates[i].Score = float64(finalScore)
 	}
 	
+	// Filter by threshold
+	if opts.Threshold > 0 {
+		filtered := candidates[:0]
+		for _, candidate := range candidates {
+			if candidate.Score >= opts.Threshold {
+				filtered = append(filtered, candidate)
+			}
+		}
+		candidates = filtered
+	}
+	
 	// Sort by final score
 	sort.Slice(candidates, func(i, j int) bool {
 		return candidates[i].Score > candidates[j].Score
diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index ffd4758..a3ce63b 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -50,7 +50,7 @@ func (s *SQLiteStore) SearchWithReranker(ctx context.Context, queryVec []float32
 	// here as well would re-acquire it and keep it across the reranker callback.
 	if reranker == nil {
 		// No reranker, return normal search results
-		return s.Search(ctx, queryVec, SearchOptions{TopK: opts.TopK})
+		return s.Search(ctx, queryVec, SearchOptions{TopK: opts.TopK, Threshold: opts.Threshold})
 	}
 
 	// Perform initial search with more candidates than needed
-- 
2.43.0


From 1cbbd35eb926b02de249ecf48ec3c8365c590e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:39 +0000
Subject: [PATCH 27/48] fix: pending updates answered by SearchWithUpdates
 honour collection, filter and threshold

---
 pkg/core/streaming.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 111fb10..61f5e76 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -287,7 +287,10 @@ func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []floa
 			case emb := <-idx.updates:
 				if emb != nil {
 					score := idx.store.similarityFn(query, emb.Vector)
-					if opts.TopK == 0 || len(results) < opts.TopK || score > results[len(results)-1].Score {
+					wanted := (opts.Collection == "" || emb.Collection == opts.Collection) &&
+						idx.store.matchesFilter(*emb, opts.Filter) &&
+						(opts.Threshold <= 0 || score >= opts.Threshold)
+					if wanted && (opts.TopK == 0 || len(results) < opts.TopK || score > results[len(results)-1].Score) {
 						// This update might affect results
 						results = append(results, ScoredEmbedding{
 							Embedding: *emb,
-- 
2.43.0


From 41f98ce18b6a85873ee80246a14c619bae30a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:04 +0000
Subject: [PATCH 28/48] fix: SearchWithUpdates does not block on a full queue
 or panic on a closed one

---
 pkg/core/streaming.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 61f5e76..adc5eb1 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -308,8 +308,13 @@ func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []floa
 						}
 					}
 					
-					// Re-queue for background processing
-					idx.updates <- emb
+					// Re-queue for background processing, or store it now if the
+					// queue is full or closed
+					if err := idx.AddAsync(emb); err != nil {
+						if err := idx.store.Upsert(ctx, emb); err != nil {
+							return nil, err
+						}
+					}
 				}
 				processedCount++
 				
-- 
2.43.0


From 83e4019caab9072891881bc37b4200bc09073344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 29/48] fix: SearchWithUpdates stores what the queue refuses in
 one transaction

---
 pkg/core/streaming.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index adc5eb1..cb1edac 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -280,6 +280,7 @@ func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []floa
 		// Process some pending updates quickly
 		processedCount := 0
 		timeout := time.After(10 * time.Millisecond)
+		var unqueued []*Embedding
 		
 	ProcessLoop:
 		for processedCount < pendingCount && processedCount < 10 {
@@ -308,12 +309,10 @@ func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []floa
 						}
 					}
 					
-					// Re-queue for background processing, or store it now if the
-					// queue is full or closed
+					// Re-queue for background processing; what the queue no longer
+					// takes (full or closed) is stored below
 					if err := idx.AddAsync(emb); err != nil {
-						if err := idx.store.Upsert(ctx, emb); err != nil {
-							return nil, err
-						}
+						unqueued = append(unqueued, emb)
 					}
 				}
 				processedCount++
@@ -322,6 +321,12 @@ func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []floa
 				break ProcessLoop
 			}
 		}
+		
+		if len(unqueued) > 0 {
+			if err := idx.store.UpsertBatch(ctx, unqueued); err != nil {
+				return nil, err
+			}
+		}
 	}
 	
 	return results, nil
-- 
2.43.0


From a2382c2e21bf5dd7ec880cb12399be18af57782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:08 +0000
Subject: [PATCH 30/48] fix: HNSWHybridSearch without a limit answers with all
 matches instead of none

---
 pkg/graph/graph_hnsw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index f0e9caa..b3a8b13 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -372,8 +372,8 @@ func (g *GraphStore) HNSWSearch(ctx context.Context, query []float32, k int, thr
 // HNSWHybridSearch combines HNSW search with graph proximity
 func (g *GraphStore) HNSWHybridSearch(ctx context.Context, query *HybridQuery) ([]*HybridResult, error) {
 	idx := g.vectorIndex()
-	if idx == nil {
-		// Fall back to regular hybrid search
+	if idx == nil || query.TopK <= 0 {
+		// Fall back to regular hybrid search, which also serves queries without a limit
 		return g.HybridSearch(ctx, query)
 	}
 
-- 
2.43.0


From ef5749d8231dc35f3f67e1bf5712514ad170a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:08 +0000
Subject: [PATCH 31/48] fix: search_text without top_k uses the default instead
 of dropping every result

---
 pkg/cortexdb/graphrag_tools.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 797d0fa..600b02d 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -792,6 +792,9 @@ func (t *GraphRAGToolbox) searchTextCandidates(ctx context.Context, req ToolSear
 		TopK:       req.TopK,
 		Threshold:  req.Threshold,
 	}
+	if searchOpts.TopK <= 0 {
+		searchOpts.TopK = 10
+	}
 
 	queries := lexicalSearchQueries(req.Query, req.Keywords, req.AlternateQueries)
 	if len(queries) == 0 {
-- 
2.43.0


From 1967b815095f4593dc0739223931eae14153c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:56 +0000
Subject: [PATCH 32/48] fix: LIKE filters evaluated in memory take regexp
 characters literally, as in SQL

---
 pkg/core/advanced_filter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 03f08cb..4c95d64 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -720,10 +720,12 @@ func evaluateFilter(filter *FilterExpression, metadata map[string]interface{}) b
 		}
 		pattern := fmt.Sprintf("%v", filter.Value)
 		text := fmt.Sprintf("%v", val)
-		// Convert SQL LIKE pattern to regex
+		// Convert SQL LIKE pattern to regex: everything but % and _ stands for itself,
+		// and like SQL's LIKE the match ignores case and crosses line breaks
+		pattern = regexp.QuoteMeta(pattern)
 		pattern = strings.ReplaceAll(pattern, "%", ".*")
 		pattern = strings.ReplaceAll(pattern, "_", ".")
-		matched, _ := regexp.MatchString("^"+pattern+"$", text)
+		matched, _ := regexp.MatchString("(?is)^"+pattern+"$", text)
 		return matched
 		
 	default:
-- 
2.43.0


From b82a281e0f2503ffe5199b80cefb6c4c6d988fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:04 +0000
Subject: [PATCH 33/48] fix: a filter "field:=value" names the field without
 the colon

---
 pkg/core/advanced_filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/advanced_filter.go b/pkg/core/advanced_filter.go
index 4c95d64..b232dd8 100644
--- a/pkg/core/advanced_filter.go
+++ b/pkg/core/advanced_filter.go
@@ -165,8 +165,8 @@ func parseComparison(expr string) (*FilterExpression, error) {
 		{"!=", FilterNE},
 		{">", FilterGT},
 		{"<", FilterLT},
+		{":=", FilterEQ}, // Alternative syntax; before "=", which it contains
 		{"=", FilterEQ},
-		{":=", FilterEQ}, // Alternative syntax
 		{":", FilterEQ},  // Shorthand
 	}
 	
-- 
2.43.0


From 9f10e7cff2b4b40161df4c89c4fbf578236d1afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:20 +0000
Subject: [PATCH 34/48] fix: the vector indexes keep their own copy of the
 vectors they are given

---
 pkg/graph/graph_hnsw.go | 2 ++
 pkg/index/hnsw.go       | 6 +++---
 pkg/index/ivf.go        | 4 ++--
 pkg/index/lsh.go        | 4 ++--
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/graph/graph_hnsw.go b/pkg/graph/graph_hnsw.go
index b3a8b13..418b39e 100644
--- a/pkg/graph/graph_hnsw.go
+++ b/pkg/graph/graph_hnsw.go
@@ -57,6 +57,8 @@ func (h *SimpleHNSW) Add(id string, vector []float32) error {
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
+	// The caller may reuse its slice
+	vector = append([]float32(nil), vector...)
 	h.vectors[id] = vector
 	level := h.randomLevel()
 
diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index fb566b6..69eb06d 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -182,7 +182,7 @@ func (h *HNSW) Insert(id string, vector []float32) error {
 	
 	// Prepare node data
 	var quantized []byte
-	var storedVector []float32 = vector
+	storedVector := append([]float32(nil), vector...) // the caller may reuse its slice
 	
 	if h.Quantizer != nil {
 		var err error
@@ -670,7 +670,7 @@ func (h *HNSW) InsertBatch(vectors []struct {
 
 		// Prepare node data
 		var quantized []byte
-		var storedVector []float32 = v.Vector
+		storedVector := append([]float32(nil), v.Vector...) // the caller may reuse its slice
 
 		if h.Quantizer != nil {
 			var err error
@@ -842,7 +842,7 @@ func (h *HNSW) InsertBatchParallel(vectors []struct {
 
 				// Prepare node data
 				var quantized []byte
-				var storedVector []float32 = v.Vector
+				storedVector := append([]float32(nil), v.Vector...) // the caller may reuse its slice
 
 				if tempHNSW.Quantizer != nil {
 					var err error
diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index 713625a..f3a8f31 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -129,8 +129,8 @@ func (ivf *IVFIndex) Add(id string, vector []float32) error {
 	vectorIdx := len(ivf.Vectors)
 	ivf.Invlists[centroidIdx] = append(ivf.Invlists[centroidIdx], vectorIdx)
 	
-	// Store vector and ID
-	ivf.Vectors = append(ivf.Vectors, vector)
+	// Store vector and ID (the caller may reuse its slice)
+	ivf.Vectors = append(ivf.Vectors, append([]float32(nil), vector...))
 	ivf.IDs = append(ivf.IDs, id)
 	
 	return nil
diff --git a/pkg/index/lsh.go b/pkg/index/lsh.go
index c8b298e..02b16db 100644
--- a/pkg/index/lsh.go
+++ b/pkg/index/lsh.go
@@ -101,8 +101,8 @@ func (lsh *LSHIndex) Insert(id string, vector []float32) error {
 	lsh.mu.Lock()
 	defer lsh.mu.Unlock()
 	
-	// Store the vector
-	lsh.vectors[id] = vector
+	// Store the vector (the caller may reuse its slice)
+	lsh.vectors[id] = append([]float32(nil), vector...)
 	
 	// Add to all hash tables
 	for tableIdx := 0; tableIdx < lsh.numTables; tableIdx++ {
-- 
2.43.0


From 0cbb3cea7b312e0b30f44a577442c1f600527d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:02 +0000
Subject: [PATCH 35/48] fix: the geo index neither keeps the caller's metadata
 maps nor hands out its own

---
 pkg/geo/geospatial.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/geo/geospatial.go b/pkg/geo/geospatial.go
index 60e773b..61170c6 100644
--- a/pkg/geo/geospatial.go
+++ b/pkg/geo/geospatial.go
@@ -3,6 +3,7 @@ package geo
 
 import (
 	"fmt"
+	"maps"
 	"math"
 	"sort"
 	"sync"
@@ -51,6 +52,13 @@ type BoundingBox struct {
 	MaxLng float64 `json:"max_lng"`
 }
 
+// clone copies a point, so that changes to the copy do not reach the index
+func (p *GeoPoint) clone() GeoPoint {
+	c := *p
+	c.Metadata = maps.Clone(p.Metadata)
+	return c
+}
+
 // GeoIndex provides geo-spatial indexing and search
 type GeoIndex struct {
 	mu     sync.RWMutex
@@ -82,7 +90,8 @@ func (g *GeoIndex) Insert(point GeoPoint) error {
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
-	// Store point
+	// Store point (with a copy of the metadata, which the caller may go on changing)
+	point.Metadata = maps.Clone(point.Metadata)
 	g.points[point.ID] = &point
 
 	// Add to grid index
@@ -152,7 +161,7 @@ func (g *GeoIndex) SearchRadius(center Coordinate, radius float64, unit Distance
 			// Convert distance back to requested unit
 			displayDist := convertFromKM(dist, unit)
 			results = append(results, GeoSearchResult{
-				Point:    *point,
+				Point:    point.clone(),
 				Distance: displayDist,
 			})
 		}
@@ -184,7 +193,7 @@ func (g *GeoIndex) SearchKNN(center Coordinate, k int) ([]GeoSearchResult, error
 	for _, point := range g.points {
 		dist := haversineDistance(center, point.Coordinate)
 		results = append(results, GeoSearchResult{
-			Point:    *point,
+			Point:    point.clone(),
 			Distance: dist,
 		})
 	}
@@ -227,7 +236,7 @@ func (g *GeoIndex) SearchBoundingBox(bbox BoundingBox) ([]GeoPoint, error) {
 					   point.Coordinate.Lat <= bbox.MaxLat &&
 					   point.Coordinate.Lng >= bbox.MinLng && 
 					   point.Coordinate.Lng <= bbox.MaxLng {
-						results = append(results, *point)
+						results = append(results, point.clone())
 					}
 				}
 			}
@@ -259,7 +268,7 @@ func (g *GeoIndex) SearchPolygon(polygon []Coordinate) ([]GeoPoint, error) {
 		
 		// Point-in-polygon test using ray casting algorithm
 		if pointInPolygon(point.Coordinate, polygon) {
-			results = append(results, *point)
+			results = append(results, point.clone())
 		}
 	}
 
@@ -288,7 +297,7 @@ func (g *GeoIndex) GetPoint(id string) (*GeoPoint, bool) {
 	point, exists := g.points[id]
 	if exists {
 		// Return a copy to prevent external modification
-		copy := *point
+		copy := point.clone()
 		return &copy, true
 	}
 	return nil, false
-- 
2.43.0


From 9584d6d148660e9519da291a3704819c218ab269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:34 +0000
Subject: [PATCH 36/48] fix: cached embeddings and encoder vocabularies are not
 shared with the caller

---
 pkg/semantic-router/embedder.go | 4 ++--
 pkg/semantic-router/sparse.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/semantic-router/embedder.go b/pkg/semantic-router/embedder.go
index 33a6952..9cc0b40 100644
--- a/pkg/semantic-router/embedder.go
+++ b/pkg/semantic-router/embedder.go
@@ -76,13 +76,13 @@ func (c *CachedEmbedder) lookup(text string) ([]float32, bool) {
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 	vec, ok := c.cache[text]
-	return vec, ok
+	return append([]float32(nil), vec...), ok
 }
 
 func (c *CachedEmbedder) remember(text string, vec []float32) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	c.cache[text] = vec
+	c.cache[text] = append([]float32(nil), vec...) // the caller gets vec itself
 }
 
 // Embed returns a cached embedding if available, otherwise computes and caches it.
diff --git a/pkg/semantic-router/sparse.go b/pkg/semantic-router/sparse.go
index 9f4fa59..c45d525 100644
--- a/pkg/semantic-router/sparse.go
+++ b/pkg/semantic-router/sparse.go
@@ -237,7 +237,7 @@ func (e *BM25Encoder) EncodeSparseBatch(texts []string) []map[string]float64 {
 func (e *BM25Encoder) Vocabulary() []string {
 	e.vocabMu.RLock()
 	defer e.vocabMu.RUnlock()
-	return e.vocabulary
+	return append([]string(nil), e.vocabulary...)
 }
 
 // Dimensions returns the size of the vocabulary.
@@ -381,7 +381,7 @@ func (e *TFIDFEncoder) EncodeSparseBatch(texts []string) []map[string]float64 {
 func (e *TFIDFEncoder) Vocabulary() []string {
 	e.vocabMu.RLock()
 	defer e.vocabMu.RUnlock()
-	return e.vocabulary
+	return append([]string(nil), e.vocabulary...)
 }
 
 // Dimensions returns the size of the vocabulary.
-- 
2.43.0


From 21dee08a330872b69ac3388d165d009edbf4adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:17 +0000
Subject: [PATCH 37/48] fix: memory banks and the auto-retain settings are not
 shared with the caller

---
 pkg/hindsight/bank.go      | 10 ++++++++++
 pkg/hindsight/hindsight.go |  8 ++++----
 pkg/hindsight/hooks.go     |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/hindsight/bank.go b/pkg/hindsight/bank.go
index 135ad38..4c1e76e 100644
--- a/pkg/hindsight/bank.go
+++ b/pkg/hindsight/bank.go
@@ -61,6 +61,16 @@ type Bank struct {
 	CreatedAt int64
 }
 
+// clone copies a bank, so that changes to the copy do not reach the system.
+func (b *Bank) clone() *Bank {
+	c := *b
+	if b.Disposition != nil {
+		d := *b.Disposition
+		c.Disposition = &d
+	}
+	return &c
+}
+
 // NewBank creates a new memory bank with default disposition.
 func NewBank(id, name string) *Bank {
 	return &Bank{
diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 0b1a813..3b9dfc8 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -779,7 +779,7 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 		fmt.Printf("[Warning] Failed to persist bank to graph: %v\n", err)
 	}
 
-	s.banks[bank.ID] = bank
+	s.banks[bank.ID] = bank.clone()
 	return nil
 }
 
@@ -791,7 +791,7 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 	s.mu.RUnlock()
 
 	if ok {
-		return bank, true
+		return bank.clone(), true
 	}
 
 	// Try to load from database graph
@@ -809,7 +809,7 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 		s.banks[bankID] = bank
 		s.mu.Unlock()
 
-		return bank, true
+		return bank.clone(), true
 	}
 
 	return nil, false
@@ -822,7 +822,7 @@ func (s *System) ListBanks() []*Bank {
 
 	banks := make([]*Bank, 0, len(s.banks))
 	for _, b := range s.banks {
-		banks = append(banks, b)
+		banks = append(banks, b.clone())
 	}
 	return banks
 }
diff --git a/pkg/hindsight/hooks.go b/pkg/hindsight/hooks.go
index 129b9b0..1862159 100644
--- a/pkg/hindsight/hooks.go
+++ b/pkg/hindsight/hooks.go
@@ -225,6 +225,7 @@ func (s *System) SetAutoRetain(cfg *AutoRetainConfig) {
 		cfg.TriggerEvery = 2
 	}
 	s.autoRetainCfg = *cfg
+	s.autoRetainCfg.RoleFilter = append([]string(nil), cfg.RoleFilter...)
 	if cfg.Enabled {
 		// reset counter so the first trigger fires after TriggerEvery messages
 		s.autoRetainCounter = 0
-- 
2.43.0


From 976766d5206c0015fbcb75c42ef25da512a14409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:00 +0000
Subject: [PATCH 38/48] fix: a queued update is the embedding as it was when
 queued

---
 pkg/core/streaming.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index cb1edac..273845f 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -3,6 +3,7 @@ package core
 import (
 	"context"
 	"fmt"
+	"maps"
 	"sort"
 	"sync"
 	"time"
@@ -255,8 +256,17 @@ func (idx *IncrementalIndex) AddAsync(emb *Embedding) error {
 		return fmt.Errorf("index is closed")
 	}
 	
+	if emb == nil {
+		return fmt.Errorf("embedding is nil")
+	}
+	// The update is applied later, when the caller may have changed the embedding
+	queued := *emb
+	queued.Vector = append([]float32(nil), emb.Vector...)
+	queued.Metadata = maps.Clone(emb.Metadata)
+	queued.ACL = append([]string(nil), emb.ACL...)
+
 	select {
-	case idx.updates <- emb:
+	case idx.updates <- &queued:
 		return nil
 	default:
 		return fmt.Errorf("update queue is full")
-- 
2.43.0


From 77a0d0408880966a20aeab8b64e2272fc5be7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:12 +0000
Subject: [PATCH 39/48] fix: a reopened memory bank has its background and
 disposition instead of a nil one

---
 pkg/hindsight/hindsight.go | 43 +++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 3b9dfc8..2424583 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -746,6 +746,9 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 	}
 
 	bank.CreatedAt = time.Now().Unix()
+	if bank.Disposition == nil {
+		bank.Disposition = DefaultDisposition()
+	}
 
 	// Persist bank to graph_nodes for cross-session persistence
 	vectorDim := 1536 // default dimension
@@ -798,12 +801,7 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 	ctx := context.Background()
 	node, err := s.graph.GetNode(ctx, bankID)
 	if err == nil && node.NodeType == "bank" {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
-		}
+		bank := s.nodeToBank(node)
 
 		s.mu.Lock()
 		s.banks[bankID] = bank
@@ -1220,14 +1218,9 @@ func (s *System) loadPersistedBanks(ctx context.Context) error {
 	}
 
 	for _, node := range nodes {
-		bank := &Bank{
-			ID:          node.ID,
-			Name:        node.Content,
-			Description: node.Content,
-			CreatedAt:   node.CreatedAt.Unix(),
+		if bank := s.nodeToBank(node); bank != nil {
+			s.banks[bank.ID] = bank
 		}
-
-		s.banks[bank.ID] = bank
 	}
 
 	return nil
@@ -1239,10 +1232,32 @@ func (s *System) nodeToBank(node *graph.GraphNode) *Bank {
 		return nil
 	}
 
-	return &Bank{
+	bank := &Bank{
 		ID:          node.ID,
 		Name:        node.Content,
 		Description: node.Content,
+		Disposition: DefaultDisposition(),
 		CreatedAt:   node.CreatedAt.Unix(),
 	}
+
+	// What CreateBank stored beside the name
+	if v, ok := node.Properties["description"].(string); ok {
+		bank.Description = v
+	}
+	if v, ok := node.Properties["background"].(string); ok {
+		bank.Background = v
+	}
+	for name, trait := range map[string]*int{
+		"skepticism": &bank.Skepticism,
+		"literalism": &bank.Literalism,
+		"empathy":    &bank.Empathy,
+	} {
+		if v, ok := node.Properties[name].(float64); ok {
+			*trait = int(v)
+		}
+	}
+	if v, ok := node.Properties["created_at"].(float64); ok {
+		bank.CreatedAt = int64(v)
+	}
+	return bank
 }
-- 
2.43.0


From fd6db1b027d1daf822abc9ca7a458f6a273bf48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:20 +0000
Subject: [PATCH 40/48] fix: banks are copied for the caller while the lock is
 held

---
 pkg/hindsight/hindsight.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/hindsight/hindsight.go b/pkg/hindsight/hindsight.go
index 2424583..d28aa69 100644
--- a/pkg/hindsight/hindsight.go
+++ b/pkg/hindsight/hindsight.go
@@ -790,12 +790,11 @@ func (s *System) CreateBank(ctx context.Context, bank *Bank) error {
 // First checks in-memory cache, then loads from database if not found.
 func (s *System) GetBank(bankID string) (*Bank, bool) {
 	s.mu.RLock()
-	bank, ok := s.banks[bankID]
-	s.mu.RUnlock()
-
-	if ok {
+	if bank, ok := s.banks[bankID]; ok {
+		defer s.mu.RUnlock()
 		return bank.clone(), true
 	}
+	s.mu.RUnlock()
 
 	// Try to load from database graph
 	ctx := context.Background()
@@ -804,10 +803,10 @@ func (s *System) GetBank(bankID string) (*Bank, bool) {
 		bank := s.nodeToBank(node)
 
 		s.mu.Lock()
-		s.banks[bankID] = bank
+		s.banks[bankID] = bank.clone()
 		s.mu.Unlock()
 
-		return bank.clone(), true
+		return bank, true
 	}
 
 	return nil, false
-- 
2.43.0


From ffb84beb9e6ad59027121674b8a8c715e8d1dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:18 +0000
Subject: [PATCH 41/48] fix: upsert_entities records the document it was given
 on the mention edges

---
 pkg/cortexdb/graphrag_tools.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/cortexdb/graphrag_tools.go b/pkg/cortexdb/graphrag_tools.go
index 600b02d..6e1151a 100644
--- a/pkg/cortexdb/graphrag_tools.go
+++ b/pkg/cortexdb/graphrag_tools.go
@@ -691,13 +691,17 @@ func (t *GraphRAGToolbox) UpsertEntities(ctx context.Context, req ToolUpsertEnti
 			if chunkID == "" {
 				continue
 			}
-			edges = append(edges, &graph.GraphEdge{
+			mention := &graph.GraphEdge{
 				ID:         fmt.Sprintf("edge:mention:%s:%s", chunkID, entityID),
 				FromNodeID: chunkID,
 				ToNodeID:   entityID,
 				EdgeType:   "mentions",
 				Weight:     1.0,
-			})
+			}
+			if req.DocumentID != "" {
+				mention.Properties = map[string]interface{}{"document_id": req.DocumentID}
+			}
+			edges = append(edges, mention)
 		}
 	}
 
-- 
2.43.0


From b2a6e13f4ed42e3649a3eacbd471500c7ee3dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:31 +0000
Subject: [PATCH 42/48] fix: IncrementalIndex.Close returns only when the
 accepted updates are stored

---
 pkg/core/streaming.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/core/streaming.go b/pkg/core/streaming.go
index 273845f..2002f40 100644
--- a/pkg/core/streaming.go
+++ b/pkg/core/streaming.go
@@ -232,6 +232,7 @@ type IncrementalIndex struct {
 	updates   chan *Embedding
 	closed    bool
 	closeOnce sync.Once
+	done      sync.WaitGroup
 }
 
 // NewIncrementalIndex creates a new incremental index
@@ -242,7 +243,11 @@ func NewIncrementalIndex(store *SQLiteStore) *IncrementalIndex {
 	}
 	
 	// Start background update processor
-	go idx.processUpdates()
+	idx.done.Add(1)
+	go func() {
+		defer idx.done.Done()
+		idx.processUpdates()
+	}()
 	
 	return idx
 }
@@ -342,7 +347,7 @@ func (idx *IncrementalIndex) SearchWithUpdates(ctx context.Context, query []floa
 	return results, nil
 }
 
-// Close shuts down the incremental index
+// Close shuts down the incremental index; the updates accepted so far are stored when it returns
 func (idx *IncrementalIndex) Close() {
 	idx.closeOnce.Do(func() {
 		idx.mu.Lock()
@@ -350,6 +355,7 @@ func (idx *IncrementalIndex) Close() {
 		close(idx.updates)
 		idx.mu.Unlock()
 	})
+	idx.done.Wait()
 }
 
 // processUpdates handles background update processing
-- 
2.43.0


From 58d88b762ca1c8c6ad017a4d7e6d980410ff556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 43/48] fix: vector distances do not read beyond the shorter
 vector

---
 pkg/index/hnsw.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/index/hnsw.go b/pkg/index/hnsw.go
index 69eb06d..475998c 100644
--- a/pkg/index/hnsw.go
+++ b/pkg/index/hnsw.go
@@ -619,7 +619,11 @@ func (h *distHeap) Pop() interface{} {
 // Distance functions
 
 // EuclideanDistance computes Euclidean distance
+// (vectors of different dimensions are as far apart as can be)
 func EuclideanDistance(a, b []float32) float32 {
+	if len(a) != len(b) {
+		return math.MaxFloat32
+	}
 	var sum float32
 	for i := range a {
 		diff := a[i] - b[i]
@@ -629,7 +633,11 @@ func EuclideanDistance(a, b []float32) float32 {
 }
 
 // CosineDistance computes cosine distance (1 - cosine similarity)
+// (vectors of different dimensions are as far apart as can be)
 func CosineDistance(a, b []float32) float32 {
+	if len(a) != len(b) {
+		return math.MaxFloat32
+	}
 	var dotProduct, normA, normB float32
 	for i := range a {
 		dotProduct += a[i] * b[i]
@@ -646,7 +654,11 @@ func CosineDistance(a, b []float32) float32 {
 }
 
 // DotProductDistance computes negative dot product (for similarity)
+// (vectors of different dimensions are as far apart as can be)
 func DotProductDistance(a, b []float32) float32 {
+	if len(a) != len(b) {
+		return math.MaxFloat32
+	}
 	var dotProduct float32
 	for i := range a {
 		dotProduct += a[i] * b[i]
-- 
2.43.0


From a509d21f1e504d63475c58abb48b22b41a9da943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 44/48] fix: IVFIndex.Train rejects vectors of another
 dimension

---
 pkg/index/ivf.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/index/ivf.go b/pkg/index/ivf.go
index f3a8f31..9d7e5e4 100644
--- a/pkg/index/ivf.go
+++ b/pkg/index/ivf.go
@@ -91,6 +91,11 @@ func (ivf *IVFIndex) Train(vectors [][]float32) error {
 	if len(vectors) < ivf.NCentroids {
 		return fmt.Errorf("need at least %d vectors for training, got %d", ivf.NCentroids, len(vectors))
 	}
+	for _, vector := range vectors {
+		if len(vector) != ivf.Dimension {
+			return fmt.Errorf("vector dimension %d doesn't match index dimension %d", len(vector), ivf.Dimension)
+		}
+	}
 	
 	// Run k-means to find centroids
 	centroids, err := kMeansIVF(vectors, ivf.NCentroids, 20)
-- 
2.43.0


From bcdd2d79a9db0b58fe786adb941bb77ddd989091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 45/48] fix: quantizers check the dimension of the vectors and
 codes they are given

---
 pkg/quantization/product_quantization.go | 20 +++++++++++++++++---
 pkg/quantization/scalar_quantization.go  |  7 +++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/pkg/quantization/product_quantization.go b/pkg/quantization/product_quantization.go
index 4020a72..adae995 100644
--- a/pkg/quantization/product_quantization.go
+++ b/pkg/quantization/product_quantization.go
@@ -45,6 +45,11 @@ func (pq *ProductQuantizer) Train(vectors [][]float32) error {
 	if len(vectors) < pq.K*pq.M {
 		return fmt.Errorf("need at least %d vectors for training, got %d", pq.K*pq.M, len(vectors))
 	}
+	for _, vec := range vectors {
+		if len(vec) != pq.D {
+			return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vec), pq.D)
+		}
+	}
 	
 	pq.TrainSize = len(vectors)
 	
@@ -142,6 +147,12 @@ func (pq *ProductQuantizer) ComputeDistance(codes []byte, query []float32) (floa
 	if !pq.Trained {
 		return 0, errors.New("quantizer not trained")
 	}
+	if len(codes) != pq.M {
+		return 0, fmt.Errorf("code length %d doesn't match number of subspaces %d", len(codes), pq.M)
+	}
+	if len(query) != pq.D {
+		return 0, fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(query), pq.D)
+	}
 	
 	// Precompute distance table
 	distTable := pq.computeDistanceTable(query)
@@ -175,7 +186,7 @@ func (pq *ProductQuantizer) computeDistanceTable(query []float32) [][]float32 {
 
 // SearchPQ performs approximate nearest neighbor search on PQ-compressed vectors
 func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int) ([]int, []float32) {
-	if !pq.Trained || len(codes) == 0 {
+	if !pq.Trained || len(codes) == 0 || len(query) != pq.D {
 		return nil, nil
 	}
 	
@@ -188,13 +199,16 @@ func (pq *ProductQuantizer) SearchPQ(query []float32, codes [][]byte, topK int)
 		dist float32
 	}
 	
-	results := make([]result, len(codes))
+	results := make([]result, 0, len(codes))
 	for i, code := range codes {
+		if len(code) != pq.M {
+			continue // not a code of this quantizer
+		}
 		dist := float32(0)
 		for m := 0; m < pq.M; m++ {
 			dist += distTable[m][code[m]]
 		}
-		results[i] = result{idx: i, dist: dist}
+		results = append(results, result{idx: i, dist: dist})
 	}
 	
 	// Sort by distance
diff --git a/pkg/quantization/scalar_quantization.go b/pkg/quantization/scalar_quantization.go
index a6bef6c..d97c3b4 100644
--- a/pkg/quantization/scalar_quantization.go
+++ b/pkg/quantization/scalar_quantization.go
@@ -51,6 +51,10 @@ func (sq *ScalarQuantizer) Train(vectors [][]float32) error {
 		return errors.New("no training vectors provided")
 	}
 	
+	if len(vectors[0]) != sq.Dimension {
+		return fmt.Errorf("vector dimension %d doesn't match quantizer dimension %d", len(vectors[0]), sq.Dimension)
+	}
+	
 	// Initialize min/max
 	for d := 0; d < sq.Dimension; d++ {
 		sq.Min[d] = vectors[0][d]
@@ -377,6 +381,9 @@ func (obq *OptimizedBinaryQuantizer) Project(vector []float32) []float32 {
 	for i := 0; i < obq.Dimension; i++ {
 		sum := float32(0)
 		for j, val := range vector {
+			if j >= len(obq.Projections[i]) {
+				break // beyond the input dimension
+			}
 			sum += val * obq.Projections[i][j]
 		}
 		projected[i] = sum
-- 
2.43.0


From 7e146021dc06e50be4ee88768fb19272488bc684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 46/48] fix: HybridReranker accepts rerankers that return fewer
 results

---
 pkg/core/reranker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/reranker.go b/pkg/core/reranker.go
index a3ce63b..e2b9038 100644
--- a/pkg/core/reranker.go
+++ b/pkg/core/reranker.go
@@ -435,7 +435,7 @@ func (r *HybridReranker) Rerank(ctx context.Context, query string, results []Sco
 		if err != nil {
 			return nil, err
 		}
-		scores := make([]float64, len(reranked))
+		scores := make([]float64, len(results))
 		for _, r := range reranked {
 			// Find original index
 			for k, orig := range results {
-- 
2.43.0


From 344afc1954f99a225a95b248245a2e4b5a76f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:34 +0000
Subject: [PATCH 47/48] fix: text-only search returns the metadata it reads

---
 pkg/cortexdb/cortexdb.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index e9eae22..7020fa5 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 
 	"github.com/google/uuid"
+	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
 	"github.com/liliang-cn/cortexdb/v2/pkg/core"
 	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
 )
@@ -448,7 +449,7 @@ func (db *DB) ftsSearch(ctx context.Context, query string, opts TextSearchOption
 
 	// Build FTS5 query
 	ftsQuery := `
-		SELECT e.id, e.collection_id, c.name, e.vector, e.content, e.doc_id, e.metadata, bm25(chunks_fts) as score
+		SELECT e.id, e.collection_id, c.name, e.content, e.doc_id, e.metadata, bm25(chunks_fts) as score
 		FROM chunks_fts
 		JOIN embeddings e ON chunks_fts.rowid = e.rowid
 		LEFT JOIN collections c ON e.collection_id = c.id
@@ -475,11 +476,14 @@ func (db *DB) ftsSearch(ctx context.Context, query string, opts TextSearchOption
 		var id, content string
 		var collectionID int
 		var collectionName, docID sql.NullString
-		var vectorBytes []byte
-		var metadataJSON string
+		var metadataJSON sql.NullString
 		var score float64
 
-		if err := rows.Scan(&id, &collectionID, &collectionName, &vectorBytes, &content, &docID, &metadataJSON, &score); err != nil {
+		if err := rows.Scan(&id, &collectionID, &collectionName, &content, &docID, &metadataJSON, &score); err != nil {
+			return nil, fmt.Errorf("FTS search failed: %w", err)
+		}
+		metadata, err := encoding.DecodeMetadata(metadataJSON.String)
+		if err != nil {
 			return nil, fmt.Errorf("FTS search failed: %w", err)
 		}
 
@@ -497,6 +501,7 @@ func (db *DB) ftsSearch(ctx context.Context, query string, opts TextSearchOption
 				Collection: collectionName.String,
 				Content:    content,
 				DocID:      docID.String,
+				Metadata:   metadata,
 				// Vector is not decoded for text-only search
 			},
 			Score: normalizedScore,
-- 
2.43.0


From 249811b3b95a0919a80a3dfd09693f1d3a12c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:06 +0000
Subject: [PATCH 48/48] fix: full-text scores grow with the match, in text-only
 and memory search

---
 pkg/cortexdb/cortexdb.go   | 4 +++-
 pkg/cortexdb/memory_api.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/cortexdb/cortexdb.go b/pkg/cortexdb/cortexdb.go
index 7020fa5..0a08e4a 100644
--- a/pkg/cortexdb/cortexdb.go
+++ b/pkg/cortexdb/cortexdb.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"math"
 
 	"github.com/google/uuid"
 	"github.com/liliang-cn/cortexdb/v2/internal/encoding"
@@ -489,7 +490,8 @@ func (db *DB) ftsSearch(ctx context.Context, query string, opts TextSearchOption
 
 		// Normalize BM25 score to a similarity-like score (higher is better)
 		// BM25 returns negative values for better matches
-		normalizedScore := 1.0 / (1.0 + (-score))
+		relevance := math.Max(0, -score)
+		normalizedScore := relevance / (1.0 + relevance)
 
 		if opts.Threshold > 0 && normalizedScore < opts.Threshold {
 			continue
diff --git a/pkg/cortexdb/memory_api.go b/pkg/cortexdb/memory_api.go
index f95a022..7d11ea5 100644
--- a/pkg/cortexdb/memory_api.go
+++ b/pkg/cortexdb/memory_api.go
@@ -362,7 +362,9 @@ func (db *DB) searchMemoryLexical(ctx context.Context, bucketID, query string, k
 			if scoreWeight < 0.8 {
 				scoreWeight = 0.8
 			}
-			score := (1 / (1 + math.Abs(rawRank))) * scoreWeight
+			// bm25 is the more negative the better the match
+			relevance := math.Abs(rawRank)
+			score := relevance / (1 + relevance) * scoreWeight
 			if existing, ok := merged[record.ID]; !ok || score > existing.score {
 				merged[record.ID] = scoredMemory{record: record, score: score}
 			}
-- 
2.43.0

