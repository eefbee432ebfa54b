From a0c6708b3be94bbc697272e6d2bd2437872e5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 01/38] verif: guarded facade over private subsystems (cfg
 tonbo_verif)

---
 src/lib.rs             |    8 +
 src/manifest/domain.rs |    2 +-
 src/query/scan.rs      |   28 +
 src/verif.rs           | 1303 ++++++++++++++++++++++++++++++++++++++++
 src/wal/mod.rs         |    3 +
 src/wal/verif.rs       |  263 ++++++++
 6 files changed, 1606 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs
 create mode 100644 src/wal/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 3e0b47b..f4d1d32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 #![deny(missing_docs)]
 #![deny(clippy::unwrap_used, dead_code)]
+// `tonbo_verif` is a verification-only cfg flag; see `src/verif.rs`.
+#![allow(unexpected_cfgs)]
 //! Tonbo is an embedded database for serverless data-intensive applications.
 //!
 //! - **Arrow-native schemas** with rich, typed structures
@@ -280,3 +282,9 @@ pub(crate) mod ondisk;
 
 /// Simple compaction orchestrators.
 pub(crate) mod compaction;
+
+/// Verification hooks (only with `--cfg tonbo_verif`).
+#[cfg(tonbo_verif)]
+#[doc(hidden)]
+#[allow(dead_code, missing_docs, clippy::unwrap_used)]
+pub mod verif;
diff --git a/src/manifest/domain.rs b/src/manifest/domain.rs
index 92302fa..41e31f8 100644
--- a/src/manifest/domain.rs
+++ b/src/manifest/domain.rs
@@ -383,7 +383,7 @@ impl VersionState {
         self.wal_floor.clone()
     }
 
-    #[cfg(all(test, feature = "tokio"))]
+    #[cfg(any(tonbo_verif, all(test, feature = "tokio")))]
     pub(crate) fn tombstone_watermark(&self) -> Option<u64> {
         self.tombstone_watermark
     }
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 2401a59..96fcf59 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -256,6 +256,34 @@ impl KeyBounds {
     }
 }
 
+#[cfg(tonbo_verif)]
+#[allow(dead_code)]
+impl KeyBounds {
+    pub(crate) fn verif_new(
+        lower: Option<(KeyOwned, bool)>,
+        upper: Option<(KeyOwned, bool)>,
+    ) -> Self {
+        match (lower, upper) {
+            (Some(lower), Some(upper)) => Self::with_range(lower, upper),
+            (Some((key, inclusive)), None) => Self::with_lower(key, inclusive),
+            (None, Some((key, inclusive))) => Self::with_upper(key, inclusive),
+            (None, None) => Self {
+                lower: None,
+                upper: None,
+                empty: false,
+            },
+        }
+    }
+
+    pub(crate) fn verif_intersect(&self, other: &Self) -> Self {
+        self.intersect(other)
+    }
+
+    pub(crate) fn verif_union(&self, other: &Self) -> Self {
+        self.union_envelope(other)
+    }
+}
+
 /// Row selection wrapper for a single scan source.
 ///
 /// A `RowSet` is scoped to a single source (memtable, immutable segment, or SST).
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..1ec2a2b
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,1303 @@
+//! Verification hooks (compiled only with `--cfg tonbo_verif`).
+//!
+//! A thin, behaviour-free facade over crate-private items so that the property-based harness can
+//! drive individual subsystems (memtables, SSTables, merge streams, WAL, manifest, planner) with
+//! generated inputs. Nothing in here takes decisions of its own: every function forwards to the
+//! production code and converts the result into plain data.
+
+use std::{cmp::Ordering, collections::BTreeMap, ops::Bound, sync::Arc, time::Duration};
+
+use arrow_array::{ArrayRef, RecordBatch, UInt64Array};
+use arrow_schema::SchemaRef;
+use fusio::{
+    DynFs,
+    executor::{Executor, Timer},
+    path::Path,
+};
+use fusio_parquet::reader::AsyncReader;
+use futures::StreamExt;
+use parquet::arrow::async_reader::ParquetRecordBatchStreamBuilder;
+use typed_arrow_dyn::DynRow;
+
+pub use crate::{
+    compaction::planner::LeveledPlannerConfig,
+    extractor::{KeyExtractError, KeyProjection},
+    inmem::policy::{
+        AnyOf, BatchesThreshold, BytesThreshold, MemStats, NeverSeal, OpenRowsThreshold,
+        SealDecision, SealPolicy, SealReason, TimeElapsedPolicy,
+    },
+    key::{KeyOwned, KeyRow},
+    mode::DynModeConfig,
+    mvcc::Timestamp,
+    ondisk::sstable::{
+        SsTable, SsTableConfig, SsTableDescriptor, SsTableError, SsTableId, SsTableStats,
+    },
+    schema::SchemaBuilder,
+    wal::verif as wal,
+};
+use crate::{
+    compaction::{
+        executor::CompactionOutcome,
+        orchestrator,
+        planner::{CompactionPlanner, CompactionStrategy},
+    },
+    id::{FileId, FileIdGenerator},
+    inmem::{
+        immutable::{memtable::ImmutableMemTable, prune_segments},
+        policy::StatsProvider,
+        mutable::{
+            DynMem,
+            memtable::{DynRowScan, DynRowScanEntry},
+        },
+    },
+    key::{KeyTsOwned, KeyTsViewRaw},
+    manifest::{
+        ManifestError, ManifestFs, SstEntry, TableDefinition, TableId, TonboManifest, VersionEdit,
+        VersionState, WalSegmentRef, bootstrap::init_fs_manifest,
+    },
+    mutation::DynMutation,
+    mvcc::CommitClock,
+    ondisk::{
+        scan::{DeleteStreamWithExtractor, ParquetStream, SstableScan, UnpinExec},
+        sstable::SsTableBuilder,
+    },
+    query::{
+        scan::{KeyBounds, RowSet, next_prefix_string},
+        stream::{
+            Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, StreamEntry,
+            merge::MergeStream,
+        },
+    },
+    transaction::TransactionScan,
+};
+
+/// Row observed through any scan: key, commit timestamp, row (or `None` for a tombstone).
+pub type Entry = (KeyOwned, u64, Option<DynRow>);
+
+/// Key range bounds.
+pub type KeyRangeBounds = (Bound<KeyOwned>, Bound<KeyOwned>);
+
+// ---------------------------------------------------------------------------------------------
+// Keys
+// ---------------------------------------------------------------------------------------------
+
+/// Order two `(key, commit_ts)` pairs through the borrowed view used by indexes and merges.
+pub fn view_cmp(a: &KeyOwned, a_ts: u64, b: &KeyOwned, b_ts: u64) -> Ordering {
+    let a = KeyTsViewRaw::from_owned(a, Timestamp::new(a_ts));
+    let b = KeyTsViewRaw::from_owned(b, Timestamp::new(b_ts));
+    a.cmp(&b)
+}
+
+/// Equality of two `(key, commit_ts)` pairs through the borrowed view.
+pub fn view_eq(a: &KeyOwned, a_ts: u64, b: &KeyOwned, b_ts: u64) -> bool {
+    let a = KeyTsViewRaw::from_owned(a, Timestamp::new(a_ts));
+    let b = KeyTsViewRaw::from_owned(b, Timestamp::new(b_ts));
+    a == b
+}
+
+/// Order two `(key, commit_ts)` pairs through the owned composite key.
+pub fn owned_ts_cmp(a: &KeyOwned, a_ts: u64, b: &KeyOwned, b_ts: u64) -> Ordering {
+    KeyTsOwned::new(a.clone(), Timestamp::new(a_ts))
+        .cmp(&KeyTsOwned::new(b.clone(), Timestamp::new(b_ts)))
+}
+
+/// Heap size accounting for a key.
+pub fn key_heap_size(key: &KeyOwned) -> Option<usize> {
+    KeyRow::from_owned(key).ok().map(|row| row.heap_size())
+}
+
+/// Project the keys of every row in `batch` through the configured extractor.
+pub fn project_keys(cfg: &DynModeConfig, batch: &RecordBatch) -> Result<Vec<KeyOwned>, String> {
+    cfg.extractor
+        .validate_schema(&batch.schema())
+        .map_err(|e| e.to_string())?;
+    let rows: Vec<usize> = (0..batch.num_rows()).collect();
+    cfg.extractor
+        .project_view(batch, &rows)
+        .map(|views| views.iter().map(KeyRow::to_owned).collect())
+        .map_err(|e| e.to_string())
+}
+
+/// Key column indices of a configuration.
+pub fn key_indices(cfg: &DynModeConfig) -> Vec<usize> {
+    cfg.extractor.key_indices().to_vec()
+}
+
+/// Key schema of a configuration.
+pub fn key_schema(cfg: &DynModeConfig) -> SchemaRef {
+    cfg.extractor.key_schema()
+}
+
+/// Materialize one row of a batch the way the write path does.
+pub fn row_from_batch(batch: &RecordBatch, row: usize) -> Result<DynRow, String> {
+    crate::extractor::row_from_batch(batch, row).map_err(|e| e.to_string())
+}
+
+/// Schema fingerprint recorded in the catalog.
+pub fn fingerprint_schema(schema: &SchemaRef) -> String {
+    crate::mode::fingerprint_schema(schema)
+}
+
+/// Smallest string greater than every string starting with `prefix`, if any.
+pub fn next_prefix(prefix: &str) -> Option<String> {
+    next_prefix_string(prefix)
+}
+
+// ---------------------------------------------------------------------------------------------
+// Commit clock
+// ---------------------------------------------------------------------------------------------
+
+/// Commit clock wrapper.
+#[derive(Debug)]
+pub struct Clock(CommitClock);
+
+impl Clock {
+    /// Start a clock at `start`.
+    pub fn new(start: u64) -> Self {
+        Self(CommitClock::new(Timestamp::new(start)))
+    }
+    /// Allocate a timestamp.
+    pub fn alloc(&self) -> u64 {
+        self.0.alloc().get()
+    }
+    /// Next timestamp that would be allocated.
+    pub fn peek(&self) -> u64 {
+        self.0.peek().get()
+    }
+    /// Advance the clock.
+    pub fn advance(&self, ts: u64) {
+        self.0.advance_to_at_least(Timestamp::new(ts));
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Memtables
+// ---------------------------------------------------------------------------------------------
+
+/// Mutable memtable wrapper.
+pub struct Mem {
+    mem: DynMem,
+    delete_schema: SchemaRef,
+}
+
+fn collect_mutable(scan: DynRowScan<'_>) -> Result<Vec<Entry>, String> {
+    let mut out = Vec::new();
+    for item in scan {
+        match item.map_err(|e| e.to_string())? {
+            DynRowScanEntry::Row(key, row) => out.push((
+                key.key().to_owned(),
+                key.timestamp().get(),
+                Some(row.into_owned().map_err(|e| e.to_string())?),
+            )),
+            DynRowScanEntry::Tombstone(key) => {
+                out.push((key.key().to_owned(), key.timestamp().get(), None))
+            }
+        }
+    }
+    Ok(out)
+}
+
+impl Mem {
+    /// Build an empty memtable for `cfg`; `capacity` overrides the batch slot count.
+    pub fn new(cfg: DynModeConfig, capacity: Option<usize>) -> Result<Self, String> {
+        let (schema, delete_schema, _ack, mem) = cfg.build().map_err(|e| e.to_string())?;
+        let mem = match capacity {
+            Some(cap) => DynMem::with_capacity(
+                schema,
+                Arc::clone(mem.extractor()),
+                Arc::clone(mem.delete_projection()),
+                cap,
+            ),
+            None => mem,
+        };
+        Ok(Self { mem, delete_schema })
+    }
+
+    /// Schema of delete batches (key columns plus commit timestamp).
+    pub fn delete_schema(&self) -> SchemaRef {
+        Arc::clone(&self.delete_schema)
+    }
+
+    /// Insert a batch committed at `ts`.
+    pub fn insert(&self, batch: RecordBatch, ts: u64) -> Result<Option<Imm>, String> {
+        self.mem
+            .insert_batch(batch, Timestamp::new(ts))
+            .map(|o| o.map(Imm::wrap))
+            .map_err(|e| e.to_string())
+    }
+
+    /// Insert a batch with an explicit commit timestamp column.
+    pub fn insert_mvcc(&self, batch: RecordBatch, ts: UInt64Array) -> Result<Option<Imm>, String> {
+        self.mem
+            .insert_batch_with_mvcc(batch, ts)
+            .map(|o| o.map(Imm::wrap))
+            .map_err(|e| e.to_string())
+    }
+
+    /// Insert a key-only delete batch.
+    pub fn delete(&self, batch: RecordBatch) -> Result<Option<Imm>, String> {
+        self.mem
+            .insert_delete_batch(batch)
+            .map(|o| o.map(Imm::wrap))
+            .map_err(|e| e.to_string())
+    }
+
+    /// Seal the memtable.
+    pub fn seal(&self) -> Result<Option<Imm>, String> {
+        self.mem
+            .seal_now()
+            .map(|o| o.map(Imm::wrap))
+            .map_err(|e| e.to_string())
+    }
+
+    /// Scan rows visible at `read_ts`.
+    pub fn scan(
+        &self,
+        range: Option<KeyRangeBounds>,
+        projection: Option<SchemaRef>,
+        read_ts: u64,
+    ) -> Result<Vec<Entry>, String> {
+        let guard = self.mem.read();
+        let scan = match range {
+            Some((start, end)) => {
+                guard.scan_visible_in_range(projection, Timestamp::new(read_ts), start, end)
+            }
+            None => guard.scan_visible(projection, Timestamp::new(read_ts)),
+        }
+        .map_err(|e| e.to_string())?;
+        collect_mutable(scan)
+    }
+
+    /// Conflict probe.
+    pub fn has_conflict(&self, key: &KeyOwned, snapshot: u64) -> bool {
+        self.mem.has_conflict(key, Timestamp::new(snapshot))
+    }
+
+    /// Key bounds.
+    pub fn key_bounds(&self) -> (Option<KeyOwned>, Option<KeyOwned>) {
+        self.mem.key_bounds()
+    }
+
+    /// Commit timestamp bounds.
+    pub fn commit_ts_bounds(&self) -> Option<(u64, u64)> {
+        self.mem
+            .commit_ts_bounds()
+            .map(|(a, b)| (a.get(), b.get()))
+    }
+
+    /// Number of stored versions.
+    pub fn row_count(&self) -> usize {
+        self.mem.row_count()
+    }
+
+    /// Statistics handed to seal policies.
+    pub fn stats(&self, since: Option<Duration>) -> MemStats {
+        self.mem.build_stats(since)
+    }
+}
+
+/// Sealed segment wrapper.
+#[derive(Clone, Debug)]
+pub struct Imm(Arc<ImmutableMemTable>);
+
+impl Imm {
+    fn wrap(inner: ImmutableMemTable) -> Self {
+        #[allow(clippy::arc_with_non_send_sync)]
+        Self(Arc::new(inner))
+    }
+
+    /// Scan rows visible at `read_ts`.
+    pub fn scan(
+        &self,
+        range: Option<KeyRangeBounds>,
+        projection: Option<SchemaRef>,
+        read_ts: u64,
+    ) -> Result<Vec<Entry>, String> {
+        use crate::inmem::immutable::memtable::ImmutableVisibleEntry as V;
+        let scan = match range {
+            Some((start, end)) => {
+                self.0
+                    .scan_visible_in_range(projection, Timestamp::new(read_ts), start, end)
+            }
+            None => self.0.scan_visible(projection, Timestamp::new(read_ts)),
+        }
+        .map_err(|e| e.to_string())?;
+        let mut out = Vec::new();
+        for item in scan {
+            match item.map_err(|e| e.to_string())? {
+                V::Row(key, row) => out.push((
+                    key.key().to_owned(),
+                    key.timestamp().get(),
+                    Some(row.into_owned().map_err(|e| e.to_string())?),
+                )),
+                V::Tombstone(key) => out.push((key.key().to_owned(), key.timestamp().get(), None)),
+            }
+        }
+        Ok(out)
+    }
+
+    /// All stored versions in index order: key, timestamp, tombstone flag.
+    pub fn versions(&self) -> Result<Vec<(KeyOwned, u64, bool)>, String> {
+        Ok(self
+            .0
+            .row_iter()
+            .map(|row| (row.key, row.commit_ts.get(), row.tombstone))
+            .collect())
+    }
+
+    /// Conflict probe.
+    pub fn has_conflict(&self, key: &KeyOwned, snapshot: u64) -> bool {
+        self.0.has_conflict(key, Timestamp::new(snapshot))
+    }
+
+    /// Number of index entries.
+    pub fn entry_count(&self) -> usize {
+        self.0.entry_count()
+    }
+
+    /// Key bounds.
+    pub fn key_bounds(&self) -> (Option<KeyOwned>, Option<KeyOwned>) {
+        (self.0.min_key(), self.0.max_key())
+    }
+
+    /// Commit timestamp bounds.
+    pub fn commit_ts_bounds(&self) -> Option<(u64, u64)> {
+        self.0.commit_ts_bounds().map(|(a, b)| (a.get(), b.get()))
+    }
+}
+
+/// Segments that have to be visited for `bounds` at `read_ts`.
+pub fn prune(segments: &[&Imm], bounds: Option<&Bounds>, read_ts: u64) -> Vec<usize> {
+    let segments: Vec<&ImmutableMemTable> = segments.iter().map(|s| s.0.as_ref()).collect();
+    prune_segments(&segments, bounds.map(|b| &b.0), Timestamp::new(read_ts))
+}
+
+// ---------------------------------------------------------------------------------------------
+// Key bounds and row sets
+// ---------------------------------------------------------------------------------------------
+
+/// Key bounds wrapper.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Bounds(KeyBounds);
+
+impl Bounds {
+    /// Bounds from optional `(key, inclusive)` ends.
+    pub fn new(lower: Option<(KeyOwned, bool)>, upper: Option<(KeyOwned, bool)>) -> Self {
+        Self(KeyBounds::verif_new(lower, upper))
+    }
+    /// Intersection.
+    pub fn intersect(&self, other: &Self) -> Self {
+        Self(self.0.verif_intersect(&other.0))
+    }
+    /// Smallest single range covering both.
+    pub fn union_envelope(&self, other: &Self) -> Self {
+        Self(self.0.verif_union(&other.0))
+    }
+    /// True when no key can match.
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    /// Whether any key in `[min, max]` may match.
+    pub fn overlaps(&self, min: &KeyOwned, max: &KeyOwned) -> bool {
+        self.0.overlaps(min, max)
+    }
+}
+
+/// Row set wrapper.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Rows(RowSet);
+
+impl Rows {
+    /// All rows.
+    pub fn all(total: usize) -> Self {
+        Self(RowSet::all(total))
+    }
+    /// No rows.
+    pub fn none(total: usize) -> Self {
+        Self(RowSet::none(total))
+    }
+    /// From consecutive ranges.
+    pub fn from_ranges(total: usize, ranges: Vec<std::ops::Range<usize>>) -> Self {
+        Self(RowSet::from_ranges(total, ranges.into_iter()))
+    }
+    /// Rebuild from the underlying selection with a claimed total.
+    pub fn reinterpret(&self, total: usize) -> Result<Self, String> {
+        RowSet::from_row_selection(total, self.0.selection().clone())
+            .map(Self)
+            .map_err(|e| e.to_string())
+    }
+    /// Intersection.
+    pub fn intersect(&self, other: &Self) -> Result<Self, String> {
+        self.0
+            .intersect(&other.0)
+            .map(Self)
+            .map_err(|e| e.to_string())
+    }
+    /// Union.
+    pub fn union(&self, other: &Self) -> Result<Self, String> {
+        self.0.union(&other.0).map(Self).map_err(|e| e.to_string())
+    }
+    /// Selected row ids.
+    pub fn ids(&self) -> Vec<usize> {
+        self.0.iter().collect()
+    }
+    /// Selected row count.
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+    /// Universe size.
+    pub fn total(&self) -> usize {
+        self.0.total_rows()
+    }
+    /// No rows selected.
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    /// All rows selected.
+    pub fn is_full(&self) -> bool {
+        self.0.is_full()
+    }
+    /// Whether a selection has to be applied when reading, and how many rows it keeps.
+    pub fn pushed_down(&self) -> Option<usize> {
+        self.0.to_row_selection().map(|sel| sel.row_count())
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// SSTables and merge streams
+// ---------------------------------------------------------------------------------------------
+
+/// Plain copy of table statistics.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Stats {
+    /// Rows.
+    pub rows: usize,
+    /// Bytes.
+    pub bytes: usize,
+    /// Tombstones.
+    pub tombstones: usize,
+    /// Smallest key.
+    pub min_key: Option<KeyOwned>,
+    /// Largest key.
+    pub max_key: Option<KeyOwned>,
+    /// Oldest commit.
+    pub min_ts: Option<u64>,
+    /// Newest commit.
+    pub max_ts: Option<u64>,
+}
+
+/// Copy statistics into plain data.
+pub fn stats(stats: &SsTableStats) -> Stats {
+    Stats {
+        rows: stats.rows,
+        bytes: stats.bytes,
+        tombstones: stats.tombstones,
+        min_key: stats.min_key.clone(),
+        max_key: stats.max_key.clone(),
+        min_ts: stats.min_commit_ts.map(Timestamp::get),
+        max_ts: stats.max_commit_ts.map(Timestamp::get),
+    }
+}
+
+/// Build statistics from plain data.
+pub fn make_stats(s: &Stats) -> SsTableStats {
+    SsTableStats {
+        rows: s.rows,
+        bytes: s.bytes,
+        tombstones: s.tombstones,
+        min_key: s.min_key.clone(),
+        max_key: s.max_key.clone(),
+        min_commit_ts: s.min_ts.map(Timestamp::new),
+        max_commit_ts: s.max_ts.map(Timestamp::new),
+    }
+}
+
+/// SSTable configuration for the given table.
+pub fn sst_config(cfg: &DynModeConfig, fs: Arc<dyn DynFs>, root: Path) -> SsTableConfig {
+    SsTableConfig::new(cfg.schema(), fs, root).with_key_extractor(Arc::clone(&cfg.extractor))
+}
+
+/// Write sealed segments into one SSTable.
+pub async fn sst_write<E>(
+    config: Arc<SsTableConfig>,
+    id: u64,
+    level: usize,
+    segments: &[&Imm],
+    wal_ids: Option<Vec<ulid::Ulid>>,
+    executor: E,
+) -> Result<SsTable, SsTableError>
+where
+    E: Executor + Clone + 'static,
+{
+    let mut builder = SsTableBuilder::new(config, SsTableDescriptor::new(SsTableId::new(id), level));
+    for segment in segments {
+        builder.add_immutable(segment.0.as_ref())?;
+    }
+    builder.set_wal_ids(wal_ids);
+    builder.finish(executor).await
+}
+
+async fn open_stream<E>(
+    fs: &Arc<dyn DynFs>,
+    path: &Path,
+    batch_rows: usize,
+    executor: E,
+) -> Result<ParquetStream<E>, String>
+where
+    E: Executor + Clone + 'static,
+{
+    let file = fs.open(path).await.map_err(|e| e.to_string())?;
+    let size = file.size().await.map_err(|e| e.to_string())?;
+    let reader = AsyncReader::new(file, size, UnpinExec(executor))
+        .await
+        .map_err(|e| e.to_string())?;
+    ParquetRecordBatchStreamBuilder::new(reader)
+        .await
+        .map_err(|e| e.to_string())?
+        .with_batch_size(batch_rows)
+        .build()
+        .map_err(|e| e.to_string())
+}
+
+/// Read back the raw data and delete files of a table.
+pub async fn sst_raw<E>(
+    config: &SsTableConfig,
+    descriptor: &SsTableDescriptor,
+    executor: E,
+) -> Result<(Vec<RecordBatch>, Vec<RecordBatch>), String>
+where
+    E: Executor + Clone + 'static,
+{
+    let mut data = Vec::new();
+    let mut deletes = Vec::new();
+    let path = descriptor.data_path().ok_or("missing data path")?;
+    let mut stream = open_stream(config.fs(), path, 1024, executor.clone()).await?;
+    while let Some(batch) = stream.next().await {
+        data.push(batch.map_err(|e| e.to_string())?);
+    }
+    if let Some(path) = descriptor.delete_path() {
+        let mut stream = open_stream(config.fs(), path, 1024, executor).await?;
+        while let Some(batch) = stream.next().await {
+            deletes.push(batch.map_err(|e| e.to_string())?);
+        }
+    }
+    Ok((data, deletes))
+}
+
+async fn sst_scan_stream<E>(
+    cfg: &DynModeConfig,
+    config: &SsTableConfig,
+    descriptor: &SsTableDescriptor,
+    projection: Option<Vec<usize>>,
+    read_ts: u64,
+    batch_rows: usize,
+    executor: E,
+) -> Result<SstableScan<E>, String>
+where
+    E: Executor + Clone + 'static,
+{
+    let path = descriptor.data_path().ok_or("missing data path")?;
+    let data = open_stream(config.fs(), path, batch_rows, executor.clone()).await?;
+    let deletes = match descriptor.delete_path() {
+        Some(path) => {
+            let key_schema = cfg.extractor.key_schema();
+            let mut fields: Vec<arrow_schema::Field> = key_schema
+                .fields()
+                .iter()
+                .map(|f| f.as_ref().clone())
+                .collect();
+            let n = fields.len();
+            fields.push(arrow_schema::Field::new(
+                crate::mvcc::MVCC_COMMIT_COL,
+                arrow_schema::DataType::UInt64,
+                false,
+            ));
+            let schema = Arc::new(arrow_schema::Schema::new(fields));
+            let extractor = crate::extractor::projection_for_columns(schema, (0..n).collect())
+                .map_err(|e| e.to_string())?;
+            Some(DeleteStreamWithExtractor {
+                stream: open_stream(config.fs(), path, batch_rows, executor).await?,
+                extractor: extractor.into(),
+            })
+        }
+        None => None,
+    };
+    let columns = projection.unwrap_or_else(|| (0..config.schema().fields().len()).collect());
+    Ok(SstableScan::new(
+        data,
+        deletes,
+        Arc::clone(&cfg.extractor),
+        columns,
+        Some(Order::Asc),
+        Timestamp::new(read_ts),
+    ))
+}
+
+/// Scan one SSTable at `read_ts`, reading `batch_rows` rows per Parquet batch.
+#[allow(clippy::too_many_arguments)]
+pub async fn sst_scan<E>(
+    cfg: &DynModeConfig,
+    config: &SsTableConfig,
+    descriptor: &SsTableDescriptor,
+    projection: Option<Vec<usize>>,
+    read_ts: u64,
+    batch_rows: usize,
+    executor: E,
+) -> Result<Vec<Entry>, String>
+where
+    E: Executor + Clone + 'static,
+{
+    use crate::ondisk::scan::SstableVisibleEntry as V;
+    let scan = sst_scan_stream(
+        cfg, config, descriptor, projection, read_ts, batch_rows, executor,
+    )
+    .await?;
+    let mut scan = std::pin::pin!(scan);
+    let mut out = Vec::new();
+    while let Some(item) = scan.next().await {
+        match item.map_err(|e| e.to_string())? {
+            V::Row(row) => {
+                let key = row.key_ts().key().to_owned();
+                let ts = row.key_ts().timestamp().get();
+                out.push((key, ts, Some(row.into_row_owned().map_err(|e| e.to_string())?)));
+            }
+            V::Tombstone(key) => out.push((key.key().clone(), key.timestamp().get(), None)),
+        }
+    }
+    Ok(out)
+}
+
+/// Transaction-local mutations: key to row (or `None` for a delete).
+pub struct Staged {
+    entries: BTreeMap<KeyOwned, DynMutation<DynRow, ()>>,
+    ts: u64,
+}
+
+impl Staged {
+    /// Build a staging buffer visible at `ts`.
+    pub fn new(entries: Vec<(KeyOwned, Option<DynRow>)>, ts: u64) -> Self {
+        let entries = entries
+            .into_iter()
+            .map(|(k, row)| {
+                (
+                    k,
+                    match row {
+                        Some(row) => DynMutation::Upsert(row),
+                        None => DynMutation::Delete(()),
+                    },
+                )
+            })
+            .collect();
+        Self { entries, ts }
+    }
+}
+
+/// One source feeding a merged scan.
+pub enum Source<'a> {
+    /// Staged transaction writes.
+    Txn(&'a Staged),
+    /// Mutable memtable.
+    Mutable(&'a Mem),
+    /// Sealed segment.
+    Immutable(&'a Imm),
+    /// SSTable with its Parquet read batch size.
+    Sst(&'a SsTableDescriptor, usize),
+}
+
+/// Run the merged scan over `sources` (in the given order) at `read_ts`.
+#[allow(clippy::too_many_arguments)]
+pub async fn merge_scan<E>(
+    cfg: &DynModeConfig,
+    config: &SsTableConfig,
+    sources: &[Source<'_>],
+    range: Option<KeyRangeBounds>,
+    read_ts: u64,
+    limit: Option<usize>,
+    executor: E,
+) -> Result<Vec<Entry>, String>
+where
+    E: Executor + Clone + 'static,
+{
+    let mut streams: Vec<ScanStream<'_, E>> = Vec::new();
+    let ts = Timestamp::new(read_ts);
+    for source in sources {
+        match source {
+            Source::Txn(staged) => streams.push(
+                TransactionScan::new(
+                    &staged.entries,
+                    &cfg.schema,
+                    Timestamp::new(staged.ts),
+                    None,
+                )
+                .map_err(|e| e.to_string())?
+                .into(),
+            ),
+            Source::Mutable(mem) => {
+                let guard = mem.mem.read();
+                let scan = match range.clone() {
+                    Some((s, e)) => OwnedMutableScan::from_guard_range(guard, None, ts, s, e),
+                    None => OwnedMutableScan::from_guard(guard, None, ts),
+                };
+                streams.push(scan.map_err(|e| e.to_string())?.into());
+            }
+            Source::Immutable(imm) => {
+                let seg = Arc::clone(&imm.0);
+                let scan = match range.clone() {
+                    Some((s, e)) => OwnedImmutableScan::from_arc_range(seg, None, ts, s, e),
+                    None => OwnedImmutableScan::from_arc(seg, None, ts),
+                };
+                streams.push(scan.map_err(|e| e.to_string())?.into());
+            }
+            Source::Sst(desc, batch_rows) => streams.push(
+                sst_scan_stream(
+                    cfg,
+                    config,
+                    desc,
+                    None,
+                    read_ts,
+                    *batch_rows,
+                    executor.clone(),
+                )
+                .await?
+                .into(),
+            ),
+        }
+    }
+    let merge = MergeStream::from_vec(streams, limit, Some(Order::Asc))
+        .await
+        .map_err(|e| e.to_string())?;
+    let mut merge = std::pin::pin!(merge);
+    let mut out = Vec::new();
+    while let Some(item) = merge.next().await {
+        let entry = item.map_err(|e| e.to_string())?;
+        let ts = entry.ts().get();
+        let key = match &entry {
+            StreamEntry::Txn((k, _)) | StreamEntry::MemTable((k, _)) => k.key().to_owned(),
+            StreamEntry::TxnTombstone(k) | StreamEntry::MemTableTombstone(k) => k.key().to_owned(),
+            StreamEntry::Sstable(row) => row.key_ts().key().to_owned(),
+            StreamEntry::SstableTombstone(k) => k.key().clone(),
+        };
+        out.push((key, ts, entry.into_row()));
+    }
+    Ok(out)
+}
+
+/// Scan the staged writes of a transaction.
+pub fn txn_scan(
+    cfg: &DynModeConfig,
+    staged: &Staged,
+    projection: Option<&SchemaRef>,
+) -> Result<Vec<Entry>, String> {
+    use crate::transaction::TransactionScanEntry as V;
+    let scan = TransactionScan::new(
+        &staged.entries,
+        &cfg.schema,
+        Timestamp::new(staged.ts),
+        projection,
+    )
+    .map_err(|e| e.to_string())?;
+    let mut out = Vec::new();
+    for item in scan {
+        match item.map_err(|e| e.to_string())? {
+            V::Row((key, row)) => out.push((
+                key.key().to_owned(),
+                key.timestamp().get(),
+                Some(row.into_owned().map_err(|e| e.to_string())?),
+            )),
+            V::Tombstone(key) => out.push((key.key().to_owned(), key.timestamp().get(), None)),
+        }
+    }
+    Ok(out)
+}
+
+/// Compact `inputs` into new tables starting at id `first_id` on `level`.
+#[cfg(tonbo_verif_full)]
+#[allow(clippy::too_many_arguments)]
+pub async fn sst_merge<E>(
+    config: Arc<SsTableConfig>,
+    inputs: Vec<SsTableDescriptor>,
+    first_id: u64,
+    level: usize,
+    caps: (Option<usize>, Option<usize>),
+    chunk_rows: usize,
+    budget: Option<usize>,
+    executor: E,
+) -> Result<Vec<SsTable>, SsTableError>
+where
+    E: Executor + Clone + 'static,
+{
+    use std::sync::atomic::AtomicU64;
+    let next = Arc::new(AtomicU64::new(first_id + 1));
+    let mut merger = crate::ondisk::sstable::SsTableMerger::new(
+        config,
+        inputs,
+        SsTableDescriptor::new(SsTableId::new(first_id), level),
+    )
+    .with_output_id_allocator(next)
+    .with_output_caps(caps.0, caps.1)
+    .with_chunk_rows(chunk_rows);
+    if let Some(budget) = budget {
+        merger = merger.with_iteration_budget(budget);
+    }
+    merger.execute(executor).await
+}
+
+// ---------------------------------------------------------------------------------------------
+// Manifest
+// ---------------------------------------------------------------------------------------------
+
+/// Plain WAL segment reference.
+#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
+pub struct WalRef {
+    /// Segment sequence.
+    pub seq: u64,
+    /// File id.
+    pub file_id: ulid::Ulid,
+    /// First frame.
+    pub first: u64,
+    /// Last frame.
+    pub last: u64,
+}
+
+impl WalRef {
+    pub(crate) fn to_inner(&self) -> WalSegmentRef {
+        WalSegmentRef::new(self.seq, self.file_id, self.first, self.last)
+    }
+    pub(crate) fn from_inner(r: &WalSegmentRef) -> Self {
+        Self {
+            seq: r.seq(),
+            file_id: *r.file_id(),
+            first: r.first_frame(),
+            last: r.last_frame(),
+        }
+    }
+}
+
+/// Plain SST manifest entry.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Sst {
+    /// Identifier.
+    pub id: u64,
+    /// Statistics.
+    pub stats: Option<Stats>,
+    /// WAL files feeding this table.
+    pub wal_ids: Option<Vec<ulid::Ulid>>,
+    /// Data path.
+    pub data_path: String,
+    /// Delete sidecar path.
+    pub delete_path: Option<String>,
+}
+
+fn path_of(raw: &str) -> Path {
+    Path::parse(raw).expect("verif path")
+}
+
+impl Sst {
+    fn to_entry(&self) -> SstEntry {
+        SstEntry::new(
+            SsTableId::new(self.id),
+            self.stats.as_ref().map(make_stats),
+            self.wal_ids.clone(),
+            path_of(&self.data_path),
+            self.delete_path.as_deref().map(path_of),
+        )
+    }
+    fn from_entry(e: &SstEntry) -> Self {
+        Self {
+            id: e.sst_id().raw(),
+            stats: e.stats().map(stats),
+            wal_ids: e.wal_segments().map(<[FileId]>::to_vec),
+            data_path: e.data_path().to_string(),
+            delete_path: e.delete_path().map(|p| p.to_string()),
+        }
+    }
+    fn to_descriptor(&self, level: usize) -> SsTableDescriptor {
+        let mut d = SsTableDescriptor::new(SsTableId::new(self.id), level);
+        if let Some(s) = &self.stats {
+            d = d.with_stats(make_stats(s));
+        }
+        d.with_wal_ids(self.wal_ids.clone()).with_storage_paths(
+            path_of(&self.data_path),
+            self.delete_path.as_deref().map(path_of),
+        )
+    }
+    fn from_descriptor(d: &SsTableDescriptor) -> Self {
+        Self {
+            id: d.id().raw(),
+            stats: d.stats().map(stats),
+            wal_ids: d.wal_ids().map(<[FileId]>::to_vec),
+            data_path: d.data_path().map(|p| p.to_string()).unwrap_or_default(),
+            delete_path: d.delete_path().map(|p| p.to_string()),
+        }
+    }
+}
+
+/// Plain version edit.
+#[derive(Clone, Debug, PartialEq)]
+pub enum Edit {
+    /// Add tables to a level.
+    Add(u32, Vec<Sst>),
+    /// Remove tables from a level.
+    Remove(u32, Vec<u64>),
+    /// Replace the WAL segment set.
+    Wal(Vec<WalRef>),
+    /// Set the tombstone watermark.
+    Watermark(u64),
+}
+
+impl Edit {
+    fn to_inner(&self) -> VersionEdit {
+        match self {
+            Edit::Add(level, ssts) => VersionEdit::AddSsts {
+                level: *level,
+                entries: ssts.iter().map(Sst::to_entry).collect(),
+            },
+            Edit::Remove(level, ids) => VersionEdit::RemoveSsts {
+                level: *level,
+                sst_ids: ids.iter().map(|id| SsTableId::new(*id)).collect(),
+            },
+            Edit::Wal(segs) => VersionEdit::SetWalSegments {
+                segments: segs.iter().map(WalRef::to_inner).collect(),
+            },
+            Edit::Watermark(w) => VersionEdit::SetTombstoneWatermark { watermark: *w },
+        }
+    }
+    fn from_inner(e: &VersionEdit) -> Self {
+        match e {
+            VersionEdit::AddSsts { level, entries } => {
+                Edit::Add(*level, entries.iter().map(Sst::from_entry).collect())
+            }
+            VersionEdit::RemoveSsts { level, sst_ids } => {
+                Edit::Remove(*level, sst_ids.iter().map(SsTableId::raw).collect())
+            }
+            VersionEdit::SetWalSegments { segments } => {
+                Edit::Wal(segments.iter().map(WalRef::from_inner).collect())
+            }
+            VersionEdit::SetTombstoneWatermark { watermark } => Edit::Watermark(*watermark),
+        }
+    }
+}
+
+/// Plain version state.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Version {
+    /// Version number.
+    pub ts: u64,
+    /// Tables per level.
+    pub levels: Vec<Vec<Sst>>,
+    /// WAL segments.
+    pub wal: Vec<WalRef>,
+    /// WAL floor.
+    pub floor: Option<WalRef>,
+    /// Tombstone watermark.
+    pub watermark: Option<u64>,
+}
+
+fn version(v: &VersionState) -> Version {
+    Version {
+        ts: v.commit_timestamp().get(),
+        levels: v
+            .ssts()
+            .iter()
+            .map(|level| level.iter().map(Sst::from_entry).collect())
+            .collect(),
+        wal: v.wal_segments().iter().map(WalRef::from_inner).collect(),
+        floor: v.cloned_wal_floor().as_ref().map(WalRef::from_inner),
+        watermark: v.tombstone_watermark(),
+    }
+}
+
+/// Apply edits to an empty version, set by set; stops at the first failing set.
+pub fn fold_edits(sets: &[Vec<Edit>]) -> (Version, Option<usize>) {
+    let mut state = empty_version();
+    for (idx, set) in sets.iter().enumerate() {
+        let edits: Vec<VersionEdit> = set.iter().map(Edit::to_inner).collect();
+        let mut next = state.clone();
+        if next.apply_edits(&edits).is_err() {
+            return (version(&state), Some(idx));
+        }
+        state = next;
+    }
+    (version(&state), None)
+}
+
+fn empty_version() -> VersionState {
+    VersionState::empty(TableId::new(&FileIdGenerator::default()))
+}
+
+fn build_version(levels: &[Vec<Sst>], wal: &[WalRef]) -> VersionState {
+    let mut state = empty_version();
+    let mut edits: Vec<VersionEdit> = Vec::new();
+    for (level, ssts) in levels.iter().enumerate() {
+        if !ssts.is_empty() {
+            edits.push(Edit::Add(level as u32, ssts.clone()).to_inner());
+        }
+    }
+    edits.push(Edit::Wal(wal.to_vec()).to_inner());
+    state.apply_edits(&edits).expect("verif version");
+    state
+}
+
+/// Kind of failure reported by the manifest.
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub enum ManifestFailure {
+    /// Conditional publish lost a race.
+    Cas,
+    /// Catalog mismatch.
+    Catalog,
+    /// Invariant violation.
+    Invariant(String),
+    /// Backend failure.
+    Backend(String),
+}
+
+impl From<ManifestError> for ManifestFailure {
+    fn from(e: ManifestError) -> Self {
+        match e {
+            ManifestError::CasConflict(_) => Self::Cas,
+            ManifestError::CatalogConflict(_) => Self::Catalog,
+            ManifestError::Invariant(s) => Self::Invariant(s.to_string()),
+            ManifestError::Backend(e) => Self::Backend(e.to_string()),
+        }
+    }
+}
+
+/// Table handle within a manifest.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub struct Table(TableId);
+
+/// Manifest wrapper.
+pub struct Manifest<FS, E>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    inner: TonboManifest<FS, E>,
+}
+
+impl<FS, E> Manifest<FS, E>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    /// Open (or create) the manifest stored under `root`.
+    pub async fn open(fs: FS, root: &Path, exec: E) -> Result<Self, ManifestFailure> {
+        Ok(Self {
+            inner: init_fs_manifest(fs, root, exec).await?,
+        })
+    }
+
+    /// Register a table.
+    pub async fn register(
+        &self,
+        name: &str,
+        fingerprint: &str,
+        keys: Vec<String>,
+        schema_version: u32,
+    ) -> Result<Table, ManifestFailure> {
+        let def = TableDefinition {
+            name: name.to_string(),
+            schema_fingerprint: fingerprint.to_string(),
+            primary_key_columns: keys,
+            retention: None,
+            schema_version,
+        };
+        let meta = self
+            .inner
+            .register_table(&FileIdGenerator::default(), &def)
+            .await?;
+        Ok(Table(meta.table_id))
+    }
+
+    /// Apply edits.
+    pub async fn apply(&self, table: Table, edits: &[Edit]) -> Result<u64, ManifestFailure> {
+        let edits: Vec<VersionEdit> = edits.iter().map(Edit::to_inner).collect();
+        Ok(self.inner.apply_version_edits(table.0, &edits).await?.get())
+    }
+
+    /// Apply edits conditionally on the expected head.
+    pub async fn apply_cas(
+        &self,
+        table: Table,
+        expected: Option<u64>,
+        edits: &[Edit],
+    ) -> Result<u64, ManifestFailure> {
+        let edits: Vec<VersionEdit> = edits.iter().map(Edit::to_inner).collect();
+        Ok(self
+            .inner
+            .apply_version_edits_cas(table.0, expected.map(Timestamp::new), &edits)
+            .await?
+            .get())
+    }
+
+    /// Latest state: head version number, head WAL floor, version.
+    pub async fn latest(
+        &self,
+        table: Table,
+    ) -> Result<(Option<u64>, Option<WalRef>, Option<Version>), ManifestFailure> {
+        let snap = self.inner.snapshot_latest(table.0).await?;
+        Ok((
+            snap.head.last_manifest_txn.map(Timestamp::get),
+            snap.head.wal_floor.as_ref().map(WalRef::from_inner),
+            snap.latest_version.as_ref().map(version),
+        ))
+    }
+
+    /// State at a historical version.
+    pub async fn at(&self, table: Table, ts: u64) -> Result<Option<Version>, ManifestFailure> {
+        let snap = self
+            .inner
+            .snapshot_at_version(table.0, Timestamp::new(ts))
+            .await?;
+        Ok(snap.latest_version.as_ref().map(version))
+    }
+
+    /// Versions, newest first.
+    pub async fn list(&self, table: Table, limit: usize) -> Result<Vec<Version>, ManifestFailure> {
+        Ok(self
+            .inner
+            .list_versions(table.0, limit)
+            .await?
+            .iter()
+            .map(version)
+            .collect())
+    }
+
+    /// WAL floor.
+    pub async fn wal_floor(&self, table: Table) -> Result<Option<WalRef>, ManifestFailure> {
+        Ok(self
+            .inner
+            .wal_floor(table.0)
+            .await?
+            .as_ref()
+            .map(WalRef::from_inner))
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Compaction planning
+// ---------------------------------------------------------------------------------------------
+
+/// Plain compaction task.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Task {
+    /// Source level.
+    pub source: usize,
+    /// Target level.
+    pub target: usize,
+    /// Inputs as `(level, id)`.
+    pub inputs: Vec<(usize, u64)>,
+    /// Covered key range.
+    pub key_range: Option<(KeyOwned, KeyOwned)>,
+}
+
+/// Plan the next compaction for a level layout.
+pub fn plan(
+    config: LeveledPlannerConfig,
+    levels: &[Vec<Sst>],
+    min_level: Option<usize>,
+) -> Option<(Task, Result<Vec<(usize, Sst)>, String>)> {
+    let planner = CompactionStrategy::Leveled(config).build();
+    let version = build_version(levels, &[]);
+    let task = match min_level {
+        Some(min) => orchestrator::plan_from_version_with_min_level(&planner, &version, min),
+        None => orchestrator::plan_from_version(&planner, &version),
+    }?;
+    let resolved = orchestrator::resolve_inputs(&version, &task)
+        .map(|d| d.iter().map(|d| (d.level(), Sst::from_descriptor(d))).collect())
+        .map_err(|e| e.to_string());
+    Some((
+        Task {
+            source: task.source_level,
+            target: task.target_level,
+            inputs: task
+                .input
+                .iter()
+                .map(|i| (i.level, i.sst_id.raw()))
+                .collect(),
+            key_range: task.key_range,
+        },
+        resolved,
+    ))
+}
+
+fn _assert_planner<P: CompactionPlanner>(_: &P) {}
+
+/// Plain description of what publishing a compaction does.
+#[derive(Clone, Debug, PartialEq)]
+pub struct Published {
+    /// Edits sent to the manifest.
+    pub edits: Vec<Edit>,
+    /// Tables queued for deletion: `(level, id, data path, delete path)`.
+    pub gc_ssts: Vec<(u32, u64, String, Option<String>)>,
+    /// WAL segments queued for deletion.
+    pub gc_wal: Vec<WalRef>,
+    /// WAL floor reported by the outcome.
+    pub floor: Option<WalRef>,
+}
+
+/// Turn compaction outputs into manifest edits and a GC plan.
+pub fn publish(
+    levels: &[Vec<Sst>],
+    wal: &[WalRef],
+    remove: &[(usize, Sst)],
+    outputs: &[Sst],
+    target: u32,
+) -> Result<Published, String> {
+    let version = build_version(levels, wal);
+    let mut outcome = CompactionOutcome::from_outputs(
+        outputs
+            .iter()
+            .map(|s| s.to_descriptor(target as usize))
+            .collect(),
+        remove
+            .iter()
+            .map(|(level, s)| s.to_descriptor(*level))
+            .collect(),
+        target,
+        None,
+    )
+    .map_err(|e| e.to_string())?;
+    let existing = version.wal_segments().to_vec();
+    let floor = version.cloned_wal_floor();
+    orchestrator::reconcile_wal_segments(&version, &mut outcome, &existing, floor);
+    let gc = orchestrator::gc_plan_from_outcome(&outcome).map_err(|e| e.to_string())?;
+    let (gc_ssts, gc_wal) = gc
+        .map(|gc| {
+            (
+                gc.obsolete_ssts
+                    .iter()
+                    .map(|s| {
+                        (
+                            s.level,
+                            s.id.raw(),
+                            s.data_path.to_string(),
+                            s.delete_path.as_ref().map(|p| p.to_string()),
+                        )
+                    })
+                    .collect(),
+                gc.obsolete_wal_segments
+                    .iter()
+                    .map(WalRef::from_inner)
+                    .collect(),
+            )
+        })
+        .unwrap_or_default();
+    Ok(Published {
+        edits: outcome
+            .to_version_edits()
+            .iter()
+            .map(Edit::from_inner)
+            .collect(),
+        gc_ssts,
+        gc_wal,
+        floor: outcome.wal_floor.as_ref().map(WalRef::from_inner),
+    })
+}
+
+/// Arrow column helper re-exported for WAL payloads.
+pub fn commit_column(ts: u64, rows: usize) -> ArrayRef {
+    Arc::new(UInt64Array::from(vec![ts; rows]))
+}
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index e306ed1..207d664 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -46,6 +46,9 @@ pub mod metrics;
 pub mod replay;
 pub mod state;
 pub mod storage;
+#[cfg(tonbo_verif)]
+#[allow(dead_code, missing_docs)]
+pub mod verif;
 pub mod writer;
 pub use state::WalSegmentBounds;
 // Writer logic will live here once the async queue is implemented.
diff --git a/src/wal/verif.rs b/src/wal/verif.rs
new file mode 100644
index 0000000..cd8287f
--- /dev/null
+++ b/src/wal/verif.rs
@@ -0,0 +1,263 @@
+//! Verification hooks for the WAL (compiled only with `--cfg tonbo_verif`).
+
+use std::sync::Arc;
+
+use arrow_array::{ArrayRef, RecordBatch};
+use fusio::executor::{Executor, Timer};
+
+pub use super::{
+    DynBatchPayload, WalAck, WalConfig, WalError, WalHandle, WalRecoveryMode, WalResult,
+    WalSegmentBounds, WalSnapshot, WalSyncPolicy, WalTicket,
+    frame::{Frame, FrameHeader, FrameType},
+    metrics::WalMetrics,
+    state::{FsWalStateStore, WalState, WalStateHandle, WalStateStore},
+};
+use super::{
+    WalCommand, append_commit_column,
+    frame::{self, WalEvent},
+    manifest_ext, replay,
+    split_commit_column,
+    storage::WalStorage,
+    writer,
+};
+use crate::{mvcc::Timestamp, verif::WalRef};
+
+/// Logical command accepted by the encoder.
+#[derive(Clone, Debug)]
+pub enum Command {
+    /// Begin.
+    Begin(u64),
+    /// Append rows with their commit timestamp column.
+    Append(u64, RecordBatch, ArrayRef),
+    /// Append key-only deletes.
+    Delete(u64, RecordBatch),
+    /// Commit.
+    Commit(u64, u64),
+    /// Abort.
+    Abort(u64),
+}
+
+/// Decoded WAL event.
+#[derive(Clone, Debug, PartialEq)]
+pub enum Event {
+    /// Begin.
+    Begin(u64),
+    /// Rows: id, batch, per-row commit timestamps, derived commit timestamp.
+    Append(u64, RecordBatch, ArrayRef, Option<u64>),
+    /// Deletes: id, batch, derived commit timestamp.
+    Delete(u64, RecordBatch, Option<u64>),
+    /// Commit.
+    Commit(u64, u64),
+    /// Abort.
+    Abort(u64),
+    /// Seal marker.
+    Seal,
+}
+
+impl From<WalEvent> for Event {
+    fn from(event: WalEvent) -> Self {
+        match event {
+            WalEvent::TxnBegin { provisional_id } => Event::Begin(provisional_id),
+            WalEvent::DynAppend {
+                provisional_id,
+                payload,
+            } => Event::Append(
+                provisional_id,
+                payload.batch,
+                payload.commit_ts_column,
+                payload.commit_ts_hint.map(Timestamp::get),
+            ),
+            WalEvent::DynDelete {
+                provisional_id,
+                payload,
+            } => Event::Delete(
+                provisional_id,
+                payload.batch,
+                payload.commit_ts_hint.map(Timestamp::get),
+            ),
+            WalEvent::TxnCommit {
+                provisional_id,
+                commit_ts,
+            } => Event::Commit(provisional_id, commit_ts.get()),
+            WalEvent::TxnAbort { provisional_id } => Event::Abort(provisional_id),
+            WalEvent::SealMarker => Event::Seal,
+        }
+    }
+}
+
+/// Encode a command into frames.
+pub fn encode(command: Command) -> WalResult<Vec<Frame>> {
+    let command = match command {
+        Command::Begin(provisional_id) => WalCommand::TxnBegin { provisional_id },
+        Command::Append(provisional_id, batch, commit_ts_column) => WalCommand::TxnAppend {
+            provisional_id,
+            payload: DynBatchPayload::Row {
+                batch,
+                commit_ts_column,
+            },
+        },
+        Command::Delete(provisional_id, batch) => WalCommand::TxnAppend {
+            provisional_id,
+            payload: DynBatchPayload::Delete { batch },
+        },
+        Command::Commit(provisional_id, ts) => WalCommand::TxnCommit {
+            provisional_id,
+            commit_ts: Timestamp::new(ts),
+        },
+        Command::Abort(provisional_id) => WalCommand::TxnAbort { provisional_id },
+    };
+    frame::encode_command(command)
+}
+
+/// Decode one frame payload.
+pub fn decode(frame_type: FrameType, payload: &[u8]) -> WalResult<Event> {
+    frame::decode_frame(frame_type, payload).map(Event::from)
+}
+
+/// Attach a commit timestamp column.
+pub fn attach_commit_column(batch: &RecordBatch, column: &ArrayRef) -> WalResult<RecordBatch> {
+    append_commit_column(batch, column)
+}
+
+/// Detach the commit timestamp column.
+pub fn detach_commit_column(
+    batch: RecordBatch,
+) -> WalResult<(RecordBatch, Option<u64>, ArrayRef)> {
+    split_commit_column(batch).map(|(batch, ts, column)| (batch, ts.map(Timestamp::get), column))
+}
+
+/// Start a WAL writer over the existing log, exactly as opening a database does.
+pub async fn start<E>(executor: Arc<E>, cfg: WalConfig) -> WalResult<WalHandle<E>>
+where
+    E: Executor + Timer + Clone,
+{
+    let storage = WalStorage::new(Arc::clone(&cfg.segment_backend), cfg.dir.clone());
+    let state = storage.load_state_handle(cfg.state_store.as_ref()).await?;
+    let hint = state
+        .as_ref()
+        .and_then(|handle| handle.state().last_segment_seq);
+    let tail = storage.tail_metadata_with_hint(hint).await?;
+    let next_payload_seq = tail
+        .as_ref()
+        .and_then(|meta| meta.last_provisional_id)
+        .map(|last| last.saturating_add(1))
+        .unwrap_or(frame::INITIAL_FRAME_SEQ);
+    let initial_frame_seq = tail
+        .as_ref()
+        .and_then(|meta| meta.last_frame_seq)
+        .map(|seq| seq.saturating_add(1))
+        .unwrap_or(frame::INITIAL_FRAME_SEQ);
+    let metrics = Arc::new(E::rw_lock(WalMetrics::default()));
+    let writer = writer::spawn_writer(
+        executor,
+        storage,
+        cfg,
+        Arc::clone(&metrics),
+        0,
+        initial_frame_seq,
+    );
+    let (sender, queue_depth, join) = writer.into_parts();
+    Ok(WalHandle::from_parts(
+        sender,
+        queue_depth,
+        join,
+        next_payload_seq,
+        metrics,
+    ))
+}
+
+/// Append rows.
+pub async fn append<E>(
+    handle: &WalHandle<E>,
+    id: u64,
+    batch: &RecordBatch,
+    ts: u64,
+) -> WalResult<WalTicket<E>>
+where
+    E: Executor + Timer + Clone,
+{
+    handle.txn_append(id, batch, Timestamp::new(ts)).await
+}
+
+/// Commit.
+pub async fn commit<E>(handle: &WalHandle<E>, id: u64, ts: u64) -> WalResult<WalTicket<E>>
+where
+    E: Executor + Timer + Clone,
+{
+    handle.txn_commit(id, Timestamp::new(ts)).await
+}
+
+/// Replay the log above `floor`.
+pub async fn replay(cfg: &WalConfig, floor: Option<&WalRef>) -> WalResult<Vec<Event>> {
+    let floor = floor.map(WalRef::to_inner);
+    let events = replay::Replayer::new(cfg.clone())
+        .scan_with_floor(floor.as_ref())
+        .await?;
+    Ok(events.into_iter().map(Event::from).collect())
+}
+
+/// Segments required by a flush.
+pub async fn collect_refs(
+    cfg: &WalConfig,
+    floor: Option<&WalRef>,
+    live: Option<u64>,
+) -> WalResult<Vec<WalRef>> {
+    let floor = floor.map(WalRef::to_inner);
+    let refs = manifest_ext::collect_wal_segment_refs(cfg, floor.as_ref(), live).await?;
+    Ok(refs.iter().map(WalRef::from_inner).collect())
+}
+
+/// Prune segments below the floor.
+pub async fn prune(cfg: &WalConfig, floor: &WalRef) -> WalResult<usize> {
+    manifest_ext::prune_wal_segments(cfg, &floor.to_inner()).await
+}
+
+/// Plain segment description.
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub struct Segment {
+    /// Sequence.
+    pub seq: u64,
+    /// Size in bytes.
+    pub bytes: usize,
+    /// First and last frame, when the segment holds any.
+    pub frames: Option<(u64, u64)>,
+}
+
+/// List segments with their frame bounds.
+pub async fn segments(cfg: &WalConfig) -> WalResult<Vec<Segment>> {
+    let storage = WalStorage::new(Arc::clone(&cfg.segment_backend), cfg.dir.clone());
+    let mut out = Vec::new();
+    for desc in storage.list_segments().await? {
+        let bounds = storage.segment_frame_bounds(&desc.path).await?;
+        out.push(Segment {
+            seq: desc.seq,
+            bytes: desc.bytes,
+            frames: bounds.map(|b| (b.first_seq, b.last_seq)),
+        });
+    }
+    Ok(out)
+}
+
+/// Plain tail description.
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub struct Tail {
+    /// Active segment `(seq, bytes)`.
+    pub active: (u64, usize),
+    /// Completed segments `(seq, bytes)`.
+    pub completed: Vec<(u64, usize)>,
+    /// Last complete frame.
+    pub last_frame: Option<u64>,
+    /// Provisional id of the last complete frame.
+    pub last_id: Option<u64>,
+}
+
+/// Inspect (and repair) the log tail.
+pub async fn tail(cfg: &WalConfig, hint: Option<u64>) -> WalResult<Option<Tail>> {
+    let storage = WalStorage::new(Arc::clone(&cfg.segment_backend), cfg.dir.clone());
+    Ok(storage.tail_metadata_with_hint(hint).await?.map(|t| Tail {
+        active: (t.active.seq, t.active.bytes),
+        completed: t.completed.iter().map(|d| (d.seq, d.bytes)).collect(),
+        last_frame: t.last_frame_seq,
+        last_id: t.last_provisional_id,
+    }))
+}
-- 
2.43.0


From 0fdbd33a2eb567a942e46f634a0b98f9527cb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 02/38] verif: guarded maintenance hooks on the database handle
 (cfg tonbo_verif_full)

---
 src/compaction/driver.rs |   2 +-
 src/db/mod.rs            |   4 ++
 src/db/verif.rs          | 141 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 146 insertions(+), 1 deletion(-)
 create mode 100644 src/db/verif.rs

diff --git a/src/compaction/driver.rs b/src/compaction/driver.rs
index 9801450..6d97a23 100644
--- a/src/compaction/driver.rs
+++ b/src/compaction/driver.rs
@@ -430,7 +430,7 @@ where
     }
 
     /// End-to-end compaction orchestrator (plan -> resolve -> execute -> apply manifest).
-    #[cfg(all(test, feature = "tokio"))]
+    #[cfg(any(tonbo_verif_full, all(test, feature = "tokio")))]
     #[instrument(
         name = "compaction::run",
         skip(self, planner, executor),
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 6b9c595..d21c000 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -32,6 +32,10 @@ mod error;
 mod scan;
 #[cfg(all(test, feature = "tokio"))]
 mod tests;
+#[cfg(tonbo_verif_full)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+mod verif;
 mod wal;
 
 pub use builder::{
diff --git a/src/db/verif.rs b/src/db/verif.rs
new file mode 100644
index 0000000..8ce6a81
--- /dev/null
+++ b/src/db/verif.rs
@@ -0,0 +1,141 @@
+//! Verification hooks for the database handle (compiled only with `--cfg tonbo_verif_full`).
+//!
+//! The harness uses these to drive maintenance (seal, flush, compaction) at generated points of a
+//! history instead of waiting for wall-clock driven workers.
+
+use std::sync::{Arc, atomic::AtomicU64};
+
+use fusio::executor::{Executor, Timer};
+
+use super::{DB, SealPolicy};
+use crate::{
+    compaction::{
+        executor::LocalCompactionExecutor,
+        planner::{CompactionStrategy, LeveledPlannerConfig},
+    },
+    inmem::mutable::DynMem,
+    manifest::ManifestFs,
+    ondisk::sstable::{SsTableDescriptor, SsTableId},
+};
+
+impl<FS, E> DB<FS, E>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone + 'static,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    /// Install a seal policy and (when the mutable table is still empty) a batch capacity. Returns
+    /// false when the handle is already shared.
+    pub fn verif_configure(
+        &mut self,
+        policy: Arc<dyn SealPolicy + Send + Sync>,
+        capacity: Option<usize>,
+    ) -> bool {
+        let Some(inner) = Arc::get_mut(&mut self.inner) else {
+            return false;
+        };
+        inner.policy = policy;
+        if let Some(capacity) = capacity
+            && inner.mem.row_count() == 0
+        {
+            inner.mem = DynMem::with_capacity(
+                inner.schema.clone(),
+                Arc::clone(inner.mem.extractor()),
+                Arc::clone(inner.mem.delete_projection()),
+                capacity,
+            );
+        }
+        true
+    }
+
+    /// Seal the mutable memtable.
+    pub fn verif_seal(&self) -> Result<bool, String> {
+        let inner = &self.inner;
+        match inner.mem.seal_now().map_err(|e| e.to_string())? {
+            Some(segment) => {
+                let range = inner.take_mutable_wal_range();
+                inner.add_immutable(segment, range);
+                Ok(true)
+            }
+            None => Ok(false),
+        }
+    }
+
+    /// Number of sealed segments waiting for a flush.
+    pub fn verif_immutables(&self) -> usize {
+        self.inner.num_immutable_segments()
+    }
+
+    /// Flush every sealed segment into one SST with the given id. Needs a minor-compaction config.
+    pub async fn verif_flush(&self, id: u64) -> Result<bool, String> {
+        let inner = &self.inner;
+        if inner.num_immutable_segments() == 0 {
+            return Ok(false);
+        }
+        let config = inner
+            .minor_compaction
+            .as_ref()
+            .map(|m| Arc::clone(&m.config))
+            .ok_or("no sst config")?;
+        inner
+            .flush_immutables_with_descriptor(config, SsTableDescriptor::new(SsTableId::new(id), 0))
+            .await
+            .map_err(|e| e.to_string())?;
+        Ok(true)
+    }
+
+    /// Run one major compaction round. Outputs take ids from `start_id`.
+    pub async fn verif_compact(
+        &self,
+        planner: LeveledPlannerConfig,
+        start_id: u64,
+        max_output_rows: Option<usize>,
+    ) -> Result<bool, String> {
+        let inner = &self.inner;
+        let config = inner
+            .minor_compaction
+            .as_ref()
+            .map(|m| Arc::clone(&m.config))
+            .ok_or("no sst config")?;
+        let mut executor = LocalCompactionExecutor::with_id_allocator(
+            config,
+            Arc::new(AtomicU64::new(start_id)),
+        );
+        if let Some(rows) = max_output_rows {
+            executor = executor.with_max_output_rows(rows);
+        }
+        let planner = CompactionStrategy::Leveled(planner).build();
+        let outcome = inner
+            .compaction_driver()
+            .run_compaction(&planner, &executor)
+            .await
+            .map_err(|e| e.to_string())?;
+        Ok(outcome.is_some())
+    }
+
+    /// Tables per level in the latest manifest version.
+    pub async fn verif_levels(&self) -> Result<Vec<Vec<u64>>, String> {
+        let snapshot = self
+            .inner
+            .manifest
+            .snapshot_latest_with_fallback(self.inner.manifest_table, &self.inner.table_meta)
+            .await
+            .map_err(|e| e.to_string())?;
+        Ok(snapshot
+            .latest_version
+            .map(|version| {
+                version
+                    .ssts()
+                    .iter()
+                    .map(|level| level.iter().map(|e| e.sst_id().raw()).collect())
+                    .collect()
+            })
+            .unwrap_or_default())
+    }
+
+    /// Stop the WAL writer and wait for it to drain (clean shutdown).
+    pub async fn verif_shutdown(self) -> Result<(), String> {
+        let mut inner = Arc::try_unwrap(self.inner).map_err(|_| "handle still shared")?;
+        inner.disable_wal_async().await.map_err(|e| e.to_string())
+    }
+}
-- 
2.43.0


From 1faf857a1450c39faea4fa64a53e878b239298a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:20 +0000
Subject: [PATCH 03/38] fix: order NaN key components above every number

NaN compared equal to every other float, so key order was not transitive and
disagreed with key equality: float keys next to a NaN key were merged or lost.
---
 src/key/row.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 30b7c10..61d1dbb 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -323,11 +323,15 @@ fn floats_equal_f64(lhs: f64, rhs: f64) -> bool {
 }
 
 fn floats_cmp_f32(lhs: f32, rhs: f32) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN is one key value, ordered above every number.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN is one key value, ordered above every number.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
-- 
2.43.0


From 7a073ed4fd9b42695966cd6d94cf3060198c5f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:20 +0000
Subject: [PATCH 04/38] fix: hash equal signed-zero keys equally

-0.0 and 0.0 compare equal as key components but hashed differently.
---
 src/key/row.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 61d1dbb..08a4522 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -338,7 +338,8 @@ fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
     } else {
-        value.to_bits().hash(state);
+        // Adding zero folds -0.0 into 0.0: the two compare equal.
+        (value + 0.0).to_bits().hash(state);
     }
 }
 
@@ -346,7 +347,8 @@ fn hash_float_f64<H: Hasher>(value: f64, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
     } else {
-        value.to_bits().hash(state);
+        // Adding zero folds -0.0 into 0.0: the two compare equal.
+        (value + 0.0).to_bits().hash(state);
     }
 }
 
-- 
2.43.0


From b7acdea5f94ac9b902b4e8d6379d58a5f49fa690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:01 +0000
Subject: [PATCH 05/38] fix: include deletes in a sealed segment's commit
 timestamp bounds

Segment pruning skipped a sealed segment whose oldest row was newer than the
read timestamp even when it held a delete visible to that read, so a deleted
row reappeared in snapshot reads.
---
 src/inmem/immutable/memtable.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/inmem/immutable/memtable.rs b/src/inmem/immutable/memtable.rs
index fae1e7e..8e971c3 100644
--- a/src/inmem/immutable/memtable.rs
+++ b/src/inmem/immutable/memtable.rs
@@ -148,16 +148,17 @@ impl ImmutableMemTable {
     }
 
     pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        let mut iter = self.mvcc.commit_ts.iter();
+        // The index covers rows and deletes alike; a delete is a version too.
+        let mut iter = self.index.keys().map(|view| view.timestamp());
         let first = iter.next()?;
-        let mut min_ts = *first;
-        let mut max_ts = *first;
+        let mut min_ts = first;
+        let mut max_ts = first;
         for ts in iter {
-            if *ts < min_ts {
-                min_ts = *ts;
+            if ts < min_ts {
+                min_ts = ts;
             }
-            if *ts > max_ts {
-                max_ts = *ts;
+            if ts > max_ts {
+                max_ts = ts;
             }
         }
         Some((min_ts, max_ts))
-- 
2.43.0


From d6e362cf5eb95d81b5f0ea0beb30642b4fc033a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:03 +0000
Subject: [PATCH 06/38] fix: keep rejected and empty batches out of the write
 buffer's slots

A batch rejected for a null key still occupied a slot, and so did a zero-row
batch. Once every slot was taken that way sealing had nothing to seal and every
later insert failed; a batch rejected right after an automatic seal also
dropped the sealed segment.
---
 src/inmem/mutable/memtable.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 654e707..1aebb66 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -143,6 +143,17 @@ impl DynMemInner {
         batch: RecordBatch,
         commit_ts_column: UInt64Array,
     ) -> Result<Result<(), KeyExtractError>, ()> {
+        if batch.num_rows() == 0 {
+            return Ok(Ok(()));
+        }
+
+        // Project the keys first: a rejected batch must not occupy a slot.
+        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
+        let key_rows = match extractor.project_view(&batch, &row_indices) {
+            Ok(rows) => rows,
+            Err(e) => return Ok(Err(e)),
+        };
+
         // Reserve a slot atomically - no global lock needed.
         let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);
         if batch_id >= self.batch_slots.len() {
@@ -160,12 +171,6 @@ impl DynMemInner {
             ))
             .expect("batch slot already initialized - invariant violated");
 
-        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
-        let key_rows = match extractor.project_view(&batch, &row_indices) {
-            Ok(rows) => rows,
-            Err(e) => return Ok(Err(e)),
-        };
-
         for (row_idx, key_row) in key_rows.into_iter().enumerate() {
             let key_size = key_row.heap_size();
             let key_owned = key_row.to_owned();
@@ -237,13 +242,6 @@ impl DynMemInner {
             ))));
         }
 
-        // Reserve a delete slot atomically (lock-free).
-        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
-        if slot_idx >= self.delete_slots.len() {
-            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
-            return Err(()); // Capacity exhausted
-        }
-
         let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
         let key_rows = match delete_projection.project_view(&batch, &row_indices) {
             Ok(rows) => rows,
@@ -260,6 +258,13 @@ impl DynMemInner {
         };
         let attachment = DeleteAttachment::new(key_batch, commit_array.clone());
 
+        // Reserve a delete slot atomically (lock-free).
+        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
+        if slot_idx >= self.delete_slots.len() {
+            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
+            return Err(()); // Capacity exhausted
+        }
+
         // Write once via OnceLock (no concurrent writes to same slot).
         self.delete_slots[slot_idx]
             .set(attachment)
-- 
2.43.0


From 2ebeb9a5fb4353ca952989a3ab5e4a09539774cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:20 +0000
Subject: [PATCH 07/38] fix: read back key lists whose column names need JSON
 quoting

SchemaBuilder::with_metadata writes tonbo.keys as a JSON array, but reading it
split the text at commas and stripped quotes, so a column name containing a
comma, a quote or outer blanks resolved to a different or missing column.
---
 src/mode/dyn_config.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mode/dyn_config.rs b/src/mode/dyn_config.rs
index d4c3e86..14081c2 100644
--- a/src/mode/dyn_config.rs
+++ b/src/mode/dyn_config.rs
@@ -38,6 +38,10 @@ impl DynModeConfig {
         }
         fn parse_names_list(s: &str) -> Vec<String> {
             let t = s.trim();
+            // The form `SchemaBuilder::with_metadata` writes; names may contain any character.
+            if let Ok(names) = serde_json::from_str::<Vec<String>>(t) {
+                return names;
+            }
             if t.starts_with('[') && t.ends_with(']') {
                 let inner = &t[1..t.len() - 1];
                 inner
-- 
2.43.0


From dbd6e58c29851512b970e5905653e4615fc3636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:44 +0000
Subject: [PATCH 08/38] verif: export the table compression setting from the
 guarded facade

---
 src/verif.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index 1ec2a2b..0487d18 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -30,7 +30,8 @@ pub use crate::{
     mode::DynModeConfig,
     mvcc::Timestamp,
     ondisk::sstable::{
-        SsTable, SsTableConfig, SsTableDescriptor, SsTableError, SsTableId, SsTableStats,
+        SsTable, SsTableCompression, SsTableConfig, SsTableDescriptor, SsTableError, SsTableId,
+        SsTableStats,
     },
     schema::SchemaBuilder,
     wal::verif as wal,
-- 
2.43.0


From c5db52ec5c3fbaf693895b6ee922204bf95a2a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:17 +0000
Subject: [PATCH 09/38] fix: keep data and delete rows of a compaction input on
 separate cursors

Data and delete batches of an input table were consumed as pairs: when one
kind ran out first, the next pair was loaded but only rows of that kind were
queued, so compacting a table longer than one read batch lost the other kind's
rows.
---
 src/ondisk/merge.rs | 108 ++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 53 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index a7f3185..12c7101 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -6,7 +6,7 @@
 //! surface focused while merge-specific plumbing evolves.
 
 use std::{
-    collections::BinaryHeap,
+    collections::{BinaryHeap, VecDeque},
     sync::{Arc, atomic::AtomicU64},
 };
 
@@ -140,9 +140,14 @@ struct SourceCursor {
     source_idx: usize,
     extractor: Arc<dyn KeyProjection>,
     source: SsTableMergeSource,
-    batch: Option<SsTableStreamBatch>,
+    // Data and delete rows of one SST are consumed independently, so each kind keeps its own
+    // fetched batches and position.
+    data: VecDeque<RecordBatch>,
+    deletes: VecDeque<RecordBatch>,
     data_idx: usize,
     delete_idx: usize,
+    data_done: bool,
+    deletes_done: bool,
 }
 
 impl SourceCursor {
@@ -155,19 +160,41 @@ impl SourceCursor {
             source_idx,
             extractor,
             source,
-            batch: None,
+            data: VecDeque::new(),
+            deletes: VecDeque::new(),
             data_idx: 0,
             delete_idx: 0,
+            data_done: false,
+            deletes_done: false,
         }
     }
 
-    async fn ensure_batch(&mut self) -> Result<(), SsTableError> {
-        if self.batch.is_none() {
-            self.batch = self.source.next().await?;
-            self.data_idx = 0;
-            self.delete_idx = 0;
+    /// Fetch batches until one with rows of `kind` is at hand or the source has no more of them.
+    /// A slice without rows of one kind means the SST has no further rows of that kind.
+    async fn ensure_batch(&mut self, kind: RowKind) -> Result<(), SsTableError> {
+        loop {
+            let ready = match kind {
+                RowKind::Data => !self.data.is_empty() || self.data_done,
+                RowKind::Delete => !self.deletes.is_empty() || self.deletes_done,
+            };
+            if ready {
+                return Ok(());
+            }
+            let Some(batch) = self.source.next().await? else {
+                self.data_done = true;
+                self.deletes_done = true;
+                return Ok(());
+            };
+            if batch.data.num_rows() == 0 {
+                self.data_done = true;
+            } else {
+                self.data.push_back(batch.data);
+            }
+            match batch.delete {
+                Some(delete) if delete.num_rows() > 0 => self.deletes.push_back(delete),
+                _ => self.deletes_done = true,
+            }
         }
-        Ok(())
     }
 
     async fn enqueue(
@@ -177,27 +204,20 @@ impl SourceCursor {
         skip_key: Option<&KeyOwned>,
     ) -> Result<(), SsTableError> {
         loop {
-            self.ensure_batch().await?;
-            let Some(batch) = self.batch.as_ref() else {
-                return Ok(());
-            };
+            self.ensure_batch(kind).await?;
 
             match kind {
                 RowKind::Data => {
-                    if batch.data.num_rows() == 0 {
-                        self.data_idx = batch.data.num_rows();
-                        return Ok(());
-                    }
-                    if self.data_idx >= batch.data.num_rows() {
+                    let Some(data) = self.data.front() else {
                         return Ok(());
-                    }
-                    let key = extract_key_at(&batch.data, self.extractor.as_ref(), self.data_idx)?;
+                    };
+                    let key = extract_key_at(data, self.extractor.as_ref(), self.data_idx)?;
                     if skip_key.is_some_and(|k| k == &key) {
                         self.advance(kind);
                         continue;
                     }
-                    let commit_ts = commit_ts_at(&batch.data, self.data_idx)?;
-                    let seq = sequence_at(&batch.data, self.data_idx)?;
+                    let commit_ts = commit_ts_at(data, self.data_idx)?;
+                    let seq = sequence_at(data, self.data_idx)?;
                     heap.push(HeapEntry {
                         key,
                         commit_ts,
@@ -209,16 +229,9 @@ impl SourceCursor {
                     return Ok(());
                 }
                 RowKind::Delete => {
-                    let Some(delete_batch) = batch.delete.as_ref() else {
+                    let Some(delete_batch) = self.deletes.front() else {
                         return Ok(());
                     };
-                    if delete_batch.num_rows() == 0 {
-                        self.delete_idx = delete_batch.num_rows();
-                        return Ok(());
-                    }
-                    if self.delete_idx >= delete_batch.num_rows() {
-                        return Ok(());
-                    }
                     let key = extract_delete_key_at(
                         delete_batch,
                         self.extractor.as_ref(),
@@ -245,40 +258,29 @@ impl SourceCursor {
     }
 
     fn advance(&mut self, kind: RowKind) {
-        match kind {
-            RowKind::Data => self.data_idx += 1,
-            RowKind::Delete => self.delete_idx += 1,
-        }
-
-        if let Some(batch) = &self.batch {
-            let data_done = self.data_idx >= batch.data.num_rows();
-            let delete_done = batch
-                .delete
-                .as_ref()
-                .is_none_or(|d| self.delete_idx >= d.num_rows());
-            if data_done && delete_done {
-                self.batch = None;
-                self.data_idx = 0;
-                self.delete_idx = 0;
-            }
+        let (batches, idx) = match kind {
+            RowKind::Data => (&mut self.data, &mut self.data_idx),
+            RowKind::Delete => (&mut self.deletes, &mut self.delete_idx),
+        };
+        *idx += 1;
+        if batches.front().is_some_and(|batch| *idx >= batch.num_rows()) {
+            batches.pop_front();
+            *idx = 0;
         }
     }
 
     fn append_data(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
+        let Some(batch) = self.data.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let data = take_record_batch(&batch.data, &index)?;
+        let data = take_record_batch(batch, &index)?;
         output.push_data(data);
         Ok(())
     }
 
     fn append_delete(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
-            return Ok(());
-        };
-        let Some(delete_batch) = batch.delete.as_ref() else {
+        let Some(delete_batch) = self.deletes.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
@@ -690,7 +692,7 @@ impl SsTableMerger {
                 SsTableMergeSource::new(Arc::clone(&self.config), descriptor, executor.clone())
                     .await?;
             let mut cursor = SourceCursor::new(idx, Arc::clone(&extractor), source);
-            cursor.ensure_batch().await?;
+            cursor.ensure_batch(RowKind::Data).await?;
             sources.push(cursor);
         }
 
-- 
2.43.0


From 1f6a3e68e5b1fdc24385bbfc93fc3705b5a9179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:15 +0000
Subject: [PATCH 10/38] fix: remove a table's partial files when writing it
 fails

A storage error while a table was written tripped the writer's drop assertion
and left the half-written data and delete files behind.
---
 src/ondisk/sstable.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/ondisk/sstable.rs b/src/ondisk/sstable.rs
index 9e24702..77c44bf 100644
--- a/src/ondisk/sstable.rs
+++ b/src/ondisk/sstable.rs
@@ -674,10 +674,13 @@ impl ParquetTableWriter {
         }
 
         let mut ctx = WriteContext::new(Arc::clone(&config), &descriptor, executor).await?;
-        for segment in &segments {
-            ctx.write_segment(segment).await?;
-        }
-        let (data_path, delete_path, data_bytes) = ctx.finish().await?;
+        let (data_path, delete_path, data_bytes) = match ctx.write_all(&segments).await {
+            Ok(written) => written,
+            Err(err) => {
+                ctx.abandon().await;
+                return Err(err);
+            }
+        };
         let stats =
             SsTableStats::from_staged(staged, usize::try_from(data_bytes).unwrap_or(usize::MAX));
         Ok(SsTable::new(
@@ -1051,6 +1054,24 @@ where
         })
     }
 
+    async fn write_all(
+        &mut self,
+        segments: &[StagedSegment],
+    ) -> Result<(Path, Option<Path>, u64), SsTableError> {
+        for segment in segments {
+            self.write_segment(segment).await?;
+        }
+        self.finish().await
+    }
+
+    /// Give up on the table: drop the writers and remove the partial files, best effort.
+    async fn abandon(&mut self) {
+        self.data_writer = None;
+        let _ = self.fs.remove(&self.data_path).await;
+        self.delete_writer = None;
+        let _ = self.fs.remove(&self.delete_path).await;
+    }
+
     async fn write_segment(&mut self, segment: &StagedSegment) -> Result<(), SsTableError> {
         if let Some(writer) = self.data_writer.as_mut() {
             writer.write(&segment.data_with_commit).await?;
@@ -1090,7 +1111,7 @@ where
         }
     }
 
-    async fn finish(mut self) -> Result<(Path, Option<Path>, u64), SsTableError> {
+    async fn finish(&mut self) -> Result<(Path, Option<Path>, u64), SsTableError> {
         if let Some(writer) = self.data_writer.take() {
             writer.close().await?;
         }
-- 
2.43.0


From 0b5ce5ec11c413cfc9420d680492b3061bb9fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:05 +0000
Subject: [PATCH 11/38] fix: resume frame numbering when the tail segment is
 empty

Reopening a log whose newest segment holds no frame restarted numbering at 1
unless a state store was configured, so sequence numbers repeated.
---
 src/wal/storage.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 9086ffb..3069627 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -276,7 +276,17 @@ impl WalStorage {
             buffer,
         } = self.scan_tail(&active.path).await?;
 
-        let last_frame_seq = last.as_ref().map(|meta| meta.seq);
+        let mut last_frame_seq = last.as_ref().map(|meta| meta.seq);
+        if last_frame_seq.is_none() {
+            // Nothing was logged since the last rotation (or only a partial frame): numbering
+            // resumes after the newest sealed frame.
+            for descriptor in completed.iter().rev() {
+                if let Some(meta) = self.scan_tail(&descriptor.path).await?.last {
+                    last_frame_seq = Some(meta.seq);
+                    break;
+                }
+            }
+        }
         let last_provisional_id = last.as_ref().and_then(|meta| meta.provisional_id);
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
 
-- 
2.43.0


From 93891cb5a17c94a6c01a60732b1008da35ccf473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:05 +0000
Subject: [PATCH 12/38] fix: never hand out a transaction id that is still in
 the log

After a restart ids continued from the last frame of the newest segment only.
When that segment was empty, ended in a begin or abort frame, or interleaved
transactions, an id of an unfinished transaction was reused and recovery
applied its rows together with the new transaction's.
---
 src/wal/mod.rs     |  6 +++---
 src/wal/storage.rs | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 207d664..eed214f 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -954,9 +954,9 @@ where
             .and_then(|handle| handle.state().last_segment_seq);
 
         let tail_metadata = storage.tail_metadata_with_hint(wal_state_hint).await?;
-        let next_payload_seq = tail_metadata
-            .as_ref()
-            .and_then(|meta| meta.last_provisional_id)
+        let next_payload_seq = storage
+            .max_provisional_id(wal_state_hint)
+            .await?
             .map(|last| last.saturating_add(1))
             .unwrap_or(frame::INITIAL_FRAME_SEQ);
         let initial_frame_seq = tail_metadata
diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 3069627..13593e8 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -274,6 +274,7 @@ impl WalStorage {
             file_len,
             truncated,
             buffer,
+            ..
         } = self.scan_tail(&active.path).await?;
 
         let mut last_frame_seq = last.as_ref().map(|meta| meta.seq);
@@ -323,6 +324,18 @@ impl WalStorage {
         }))
     }
 
+    /// Highest provisional id carried by any complete frame still in the log.
+    pub(crate) async fn max_provisional_id(
+        &self,
+        wal_state_hint: Option<u64>,
+    ) -> WalResult<Option<u64>> {
+        let mut max = None;
+        for descriptor in self.list_segments_with_hint(wal_state_hint).await? {
+            max = max.max(self.scan_tail(&descriptor.path).await?.max_provisional_id);
+        }
+        Ok(max)
+    }
+
     async fn scan_tail(&self, path: &Path) -> WalResult<TailScan> {
         let mut file = self
             .fs
@@ -345,6 +358,7 @@ impl WalStorage {
         let file_len = data.len();
         let mut offset = 0usize;
         let mut last = None;
+        let mut max_provisional_id = None;
         let mut truncated = false;
         while offset < data.len() {
             let slice = &data[offset..];
@@ -380,6 +394,10 @@ impl WalStorage {
                 }
                 _ => None,
             };
+            if let Some(id) = payload.first_chunk::<8>() {
+                // Every frame that carries a payload starts with its provisional id.
+                max_provisional_id = max_provisional_id.max(Some(u64::from_le_bytes(*id)));
+            }
 
             last = Some(FrameTailMeta {
                 seq: header.seq,
@@ -401,6 +419,7 @@ impl WalStorage {
 
         Ok(TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
@@ -476,6 +495,7 @@ struct FrameTailMeta {
 
 struct TailScan {
     last: Option<FrameTailMeta>,
+    max_provisional_id: Option<u64>,
     file_len: usize,
     truncated: bool,
     buffer: Option<Vec<u8>>,
-- 
2.43.0


From 074100c5f222ffe2968162fc48e914c592985d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:05 +0000
Subject: [PATCH 13/38] verif: start the log writer the way opening a database
 does now

---
 src/wal/verif.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wal/verif.rs b/src/wal/verif.rs
index cd8287f..5db3a60 100644
--- a/src/wal/verif.rs
+++ b/src/wal/verif.rs
@@ -137,9 +137,9 @@ where
         .as_ref()
         .and_then(|handle| handle.state().last_segment_seq);
     let tail = storage.tail_metadata_with_hint(hint).await?;
-    let next_payload_seq = tail
-        .as_ref()
-        .and_then(|meta| meta.last_provisional_id)
+    let next_payload_seq = storage
+        .max_provisional_id(hint)
+        .await?
         .map(|last| last.saturating_add(1))
         .unwrap_or(frame::INITIAL_FRAME_SEQ);
     let initial_frame_seq = tail
-- 
2.43.0


From e9ccc0821cb1131a6e1fb3bdc29e287fbe299dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:29 +0000
Subject: [PATCH 14/38] fix: release the manifest lease when edits are rejected

A publish whose edits cannot be applied returned without ending its session:
the lease stayed until it expired (and debug builds panicked).
---
 src/manifest/driver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/manifest/driver.rs b/src/manifest/driver.rs
index 3fb9dd6..b176efd 100644
--- a/src/manifest/driver.rs
+++ b/src/manifest/driver.rs
@@ -244,7 +244,10 @@ where
             VersionState::empty(table)
         };
 
-        state.apply_edits(edits)?;
+        if let Err(err) = state.apply_edits(edits) {
+            session.end().await?;
+            return Err(err);
+        }
 
         // Update table version and commit timestamp
         let next_txn = state.commit_timestamp().next();
-- 
2.43.0


From 09a05eea1ddc57a07c7530f8e53f4a7d4524affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:15 +0000
Subject: [PATCH 15/38] fix: order compaction inputs without known keys
 consistently

Files whose smallest key is unknown compared equal to every other file, which is
not a total order: sorting a level with such files could panic.
---
 src/compaction/planner.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/compaction/planner.rs b/src/compaction/planner.rs
index f644e0f..05fbdf1 100644
--- a/src/compaction/planner.rs
+++ b/src/compaction/planner.rs
@@ -397,13 +397,11 @@ fn select_compaction_run(
 }
 
 fn compare_key(lhs: &LevelFile, rhs: &LevelFile) -> Ordering {
-    match (&lhs.stats, &rhs.stats) {
-        (Some(ls), Some(rs)) => match (&ls.min_key, &rs.min_key) {
-            (Some(lk), Some(rk)) => lk.cmp(rk),
-            _ => Ordering::Equal,
-        },
-        _ => Ordering::Equal,
+    // Files without a known smallest key sort first, so that this is a total order.
+    fn min_key(file: &LevelFile) -> Option<&KeyOwned> {
+        file.stats.as_ref().and_then(|stats| stats.min_key.as_ref())
     }
+    min_key(lhs).cmp(&min_key(rhs))
 }
 
 fn aggregate_key_range<'a>(
-- 
2.43.0


From 0146b1df35d014c6283e06df1e5359baccbcedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:00 +0000
Subject: [PATCH 16/38] verif: let the harness name snapshots

---
 src/verif.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/verif.rs b/src/verif.rs
index 0487d18..c47e44c 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -36,6 +36,8 @@ pub use crate::{
     schema::SchemaBuilder,
     wal::verif as wal,
 };
+#[cfg(tonbo_verif_full)]
+pub use crate::transaction::Snapshot;
 use crate::{
     compaction::{
         executor::CompactionOutcome,
-- 
2.43.0


From 6d09ef2520def014a0acf9aff19f6697a19c5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:28 +0000
Subject: [PATCH 17/38] fix: compare key predicates in the key column's type

---
 src/db/scan.rs    | 11 +++++---
 src/query/scan.rs | 67 ++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index b5b0987..8a209aa 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -48,8 +48,8 @@ use crate::{
         Expr, ScalarValue,
         scan::{
             DeleteSelection, RowSet, ScanPlan, ScanSelection, SstScanSelection, SstSelection,
-            key_bounds_for_predicate, key_range_for_predicate, next_prefix_string,
-            projection_with_predicate,
+            bounds_from_expr, key_bounds_for_predicate, key_range_for_predicate,
+            next_prefix_string, projection_with_predicate,
         },
         stream::{
             Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream,
@@ -1275,7 +1275,10 @@ fn split_predicate_for_non_sst_inner(
             residual: None,
         },
         Expr::Cmp { column, op, .. } => {
-            if column != key_column || matches!(op, aisle::CmpOp::NotEq) {
+            if column != key_column
+                || matches!(op, aisle::CmpOp::NotEq)
+                || bounds_from_expr(predicate, key_column, key_type).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
@@ -1287,7 +1290,7 @@ fn split_predicate_for_non_sst_inner(
             }
         }
         Expr::Between { column, .. } => {
-            if column != key_column {
+            if column != key_column || bounds_from_expr(predicate, key_column, key_type).is_none() {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 96fcf59..a361fb9 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -515,16 +515,69 @@ pub(crate) fn key_bounds_for_predicate(
     bounds_from_expr(predicate, key_column, field.data_type())
 }
 
-fn scalar_to_key(value: &ScalarValue) -> Option<KeyOwned> {
-    <KeyOwned as KeyPredicateValue>::from_scalar(value)
+/// Convert a literal to a key of the key column's type, or `None` when it has no exact
+/// counterpart there (keys of different types do not compare by value).
+fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
+    match key_type {
+        DataType::Int32 => i32::from_scalar(value).map(KeyOwned::from),
+        DataType::Int64 => i64::from_scalar(value).map(KeyOwned::from),
+        DataType::UInt32 => {
+            let value = i64::from_scalar(value)?;
+            u32::try_from(value).ok().map(KeyOwned::from)
+        }
+        DataType::UInt64 => match value {
+            ScalarValue::UInt64(Some(value)) => Some(KeyOwned::from(*value)),
+            other => {
+                let value = i64::from_scalar(other)?;
+                u64::try_from(value).ok().map(KeyOwned::from)
+            }
+        },
+        DataType::Float32 => match value {
+            ScalarValue::Float32(Some(value)) => Some(KeyOwned::from(*value)),
+            _ => None,
+        },
+        DataType::Boolean if matches!(value, ScalarValue::Boolean(_)) => {
+            KeyOwned::from_scalar(value)
+        }
+        DataType::Float64 if matches!(value, ScalarValue::Float32(_) | ScalarValue::Float64(_)) => {
+            KeyOwned::from_scalar(value)
+        }
+        DataType::Utf8 | DataType::LargeUtf8 | DataType::Utf8View
+            if matches!(
+                value,
+                ScalarValue::Utf8(_) | ScalarValue::LargeUtf8(_) | ScalarValue::Utf8View(_)
+            ) =>
+        {
+            KeyOwned::from_scalar(value)
+        }
+        DataType::Binary
+        | DataType::LargeBinary
+        | DataType::BinaryView
+        | DataType::FixedSizeBinary(_)
+            if matches!(
+                value,
+                ScalarValue::Binary(_)
+                    | ScalarValue::LargeBinary(_)
+                    | ScalarValue::BinaryView(_)
+                    | ScalarValue::FixedSizeBinary(..)
+            ) =>
+        {
+            KeyOwned::from_scalar(value)
+        }
+        _ => None,
+    }
 }
 
-fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Option<KeyBounds> {
+pub(crate) fn bounds_from_expr(
+    expr: &Expr,
+    key_column: &str,
+    key_type: &DataType,
+) -> Option<KeyBounds> {
     match expr {
         Expr::True => None,
         Expr::False => Some(KeyBounds::empty()),
         Expr::Cmp { column, op, value } if column == key_column => {
-            let key = scalar_to_key(value)?;
+            let key = scalar_to_key(value, key_type)?;
             let bounds = match op {
                 aisle::CmpOp::Eq => KeyBounds::with_range((key.clone(), true), (key, true)),
                 aisle::CmpOp::NotEq => return None,
@@ -541,8 +594,8 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             high,
             inclusive,
         } if column == key_column => {
-            let low_key = scalar_to_key(low)?;
-            let high_key = scalar_to_key(high)?;
+            let low_key = scalar_to_key(low, key_type)?;
+            let high_key = scalar_to_key(high, key_type)?;
             Some(KeyBounds::with_range(
                 (low_key, *inclusive),
                 (high_key, *inclusive),
@@ -566,7 +619,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             }
             let mut keys = Vec::with_capacity(values.len());
             for value in values {
-                let key = scalar_to_key(value)?;
+                let key = scalar_to_key(value, key_type)?;
                 keys.push(key);
             }
             let min = keys.iter().min().cloned()?;
-- 
2.43.0


From 972849afa07b727b670b30e74833ba9351a69299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:55 +0000
Subject: [PATCH 18/38] fix: read keys outside the staging buffer from the
 whole snapshot

---
 src/db/scan.rs         | 59 +--------------------------
 src/key/ts.rs          |  5 ---
 src/transaction/mod.rs | 90 +++++++++++++++++++++++++++---------------
 3 files changed, 60 insertions(+), 94 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 8a209aa..d3386df 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -27,11 +27,8 @@ use typed_arrow_dyn::DynRow;
 use crate::{
     db::DbInner,
     extractor::{KeyExtractError, KeyProjection, projection_for_columns},
-    inmem::{
-        immutable::{self, ImmutableSegment, memtable::ImmutableVisibleEntry},
-        mutable::memtable::DynRowScanEntry,
-    },
-    key::{KeyOwned, KeyRow},
+    inmem::immutable::{self, ImmutableSegment},
+    key::KeyOwned,
     mode::fingerprint_schema,
     mutation::DynMutation,
     mvcc::{MVCC_COMMIT_COL, Timestamp},
@@ -808,58 +805,6 @@ where
         Ok(streams)
     }
 
-    pub(crate) fn scan_immutable_rows_at(
-        &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
-        let segments = self.seal_state_lock().immutables.clone();
-        for segment in segments {
-            let scan = segment.scan_visible(None, read_ts)?;
-            for result in scan {
-                match result {
-                    Ok(ImmutableVisibleEntry::Row(key_view, row_raw)) => {
-                        let row = row_raw.into_owned().map_err(|err| {
-                            KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                                err.to_string(),
-                            ))
-                        })?;
-                        let (key_row, _) = key_view.into_parts();
-                        rows.push((key_row, row));
-                    }
-                    Ok(ImmutableVisibleEntry::Tombstone(_)) => {}
-                    Err(err) => return Err(KeyExtractError::from(err)),
-                }
-            }
-        }
-        Ok(rows)
-    }
-
-    pub(crate) fn scan_mutable_rows_at(
-        &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
-        let mem = self.mem.read();
-        let scan = mem.scan_visible(None, read_ts)?;
-        for entry in scan {
-            match entry {
-                Ok(DynRowScanEntry::Row(key_view, row_raw)) => {
-                    let row = row_raw.into_owned().map_err(|err| {
-                        KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                            err.to_string(),
-                        ))
-                    })?;
-                    let (key_row, _) = key_view.into_parts();
-                    rows.push((key_row, row));
-                }
-                Ok(DynRowScanEntry::Tombstone(_)) => {}
-                Err(err) => return Err(KeyExtractError::from(err)),
-            }
-        }
-        Ok(rows)
-    }
-
     /// Begin building a scan query with fluent API.
     #[cfg(test)]
     pub fn scan(&self) -> ScanBuilder<'_, FS, E> {
diff --git a/src/key/ts.rs b/src/key/ts.rs
index a5d77bf..b58b91b 100644
--- a/src/key/ts.rs
+++ b/src/key/ts.rs
@@ -38,11 +38,6 @@ impl KeyTsViewRaw {
     pub(crate) fn timestamp(&self) -> Timestamp {
         self.ts
     }
-
-    /// Decompose the view.
-    pub(crate) fn into_parts(self) -> (KeyRow, Timestamp) {
-        (self.key, self.ts)
-    }
 }
 
 impl PartialEq for KeyTsViewRaw {
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 7188f62..49c2033 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -389,11 +389,6 @@ where
         }
     }
 
-    /// Snapshot timestamp guarding conflict detection for this transaction.
-    pub(crate) fn read_ts(&self) -> Timestamp {
-        self.staged.snapshot_ts()
-    }
-
     /// Returns `true` when no mutations have been staged.
     pub fn is_empty(&self) -> bool {
         self.staged.is_empty()
@@ -464,8 +459,64 @@ where
                 DynMutation::Delete(_) => None,
             });
         }
-        let rows = self.read_mutable_rows(&*self.handle)?;
-        Ok(rows.get(key).map(clone_dyn_row))
+        // Everything the snapshot covers counts: memtables and SSTs, newest version first.
+        let batches = ScanBuilder::from_snapshot(&self.handle, &self._snapshot)
+            .filter(self.key_predicate(key))
+            .collect()
+            .await?;
+        for batch in batches {
+            let indices: Vec<usize> = (0..batch.num_rows()).collect();
+            let keys = self
+                .extractor
+                .project_view(&batch, &indices)
+                .map_err(TransactionError::KeyExtract)?;
+            if let Some(row_idx) = keys.iter().position(|row_key| &row_key.to_owned() == key) {
+                let batch_schema = batch.schema();
+                let row = DynProjection::from_schema(&batch_schema, &batch_schema)
+                    .and_then(|projection| {
+                        projection.project_row_raw(
+                            &DynSchema::from_ref(Arc::clone(&batch_schema)),
+                            &batch,
+                            row_idx,
+                        )
+                    })
+                    .and_then(|raw| raw.into_owned())
+                    .map_err(TransactionError::DynKey)?;
+                return Ok(Some(row));
+            }
+        }
+        Ok(None)
+    }
+
+    /// Predicate that narrows a scan down to (at least) `key`.
+    fn key_predicate(&self, key: &KeyOwned) -> crate::query::Expr {
+        use crate::query::{Expr, ScalarValue};
+
+        let mut parts = Vec::new();
+        for (&idx, cell) in self
+            .extractor
+            .key_indices()
+            .iter()
+            .zip(key.as_row().cells())
+        {
+            let literal = match cell {
+                Some(DynCell::Bool(value)) => ScalarValue::Boolean(Some(*value)),
+                Some(DynCell::I32(value)) => ScalarValue::Int32(Some(*value)),
+                Some(DynCell::I64(value)) => ScalarValue::Int64(Some(*value)),
+                Some(DynCell::U32(value)) => ScalarValue::UInt32(Some(*value)),
+                Some(DynCell::U64(value)) => ScalarValue::UInt64(Some(*value)),
+                Some(DynCell::Str(value)) => ScalarValue::Utf8(Some(value.clone())),
+                Some(DynCell::Bin(value)) => ScalarValue::Binary(Some(value.clone())),
+                // The caller compares keys anyway.
+                _ => continue,
+            };
+            parts.push(Expr::eq(self.schema.field(idx).name().clone(), literal));
+        }
+        if parts.is_empty() {
+            Expr::True
+        } else {
+            Expr::and(parts)
+        }
     }
 
     /// Begin building a scan query with fluent API.
@@ -529,31 +580,6 @@ where
         Ok(())
     }
 
-    fn read_mutable_rows<C>(
-        &self,
-        db: &DbInner<C, E>,
-    ) -> Result<BTreeMap<KeyOwned, DynRow>, TransactionError>
-    where
-        C: crate::manifest::ManifestFs<E>,
-        <C as fusio::fs::Fs>::File: fusio::durability::FileCommit,
-    {
-        let read_ts = self.read_ts();
-        let mut out = BTreeMap::new();
-        let rows = db
-            .scan_mutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?;
-        for (key_row, row) in rows {
-            out.insert(key_row.to_owned(), row);
-        }
-        for (key, row) in db
-            .scan_immutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?
-        {
-            out.entry(key.to_owned()).or_insert(row);
-        }
-        Ok(out)
-    }
-
     /// Commit the staged mutations into the supplied DB, ensuring WAL durability first.
     pub async fn commit(self) -> Result<(), TransactionCommitError>
     where
-- 
2.43.0


From f994de6c97e74719c8a815f7cfcfbf010e35d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:55 +0000
Subject: [PATCH 19/38] fix: reject null keys before logging a batch

---
 src/db/mod.rs |  2 ++
 src/db/wal.rs | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index d21c000..47dc2f9 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -775,6 +775,8 @@ where
             });
         }
 
+        wal::validate_key_columns(self, &batch)?;
+
         self.apply_l0_backpressure().await?;
 
         let commit_ts = self.next_commit_ts();
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 1a7e49e..b85d706 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -435,6 +435,7 @@ where
 {
     validate_record_batch_schema(db, &batch)?;
     validate_vec_tombstone_bitmap(&batch, &tombstones)?;
+    validate_key_columns(db, &batch)?;
 
     if batch.num_rows() == 0 {
         return Ok(());
@@ -608,6 +609,28 @@ where
     Ok(())
 }
 
+/// Reject null keys up front: once such a batch is in the WAL, replaying it fails every time.
+pub(super) fn validate_key_columns<FS, E>(
+    db: &DbInner<FS, E>,
+    batch: &RecordBatch,
+) -> Result<(), KeyExtractError>
+where
+    FS: ManifestFs<E>,
+    E: Executor + Timer + Clone,
+    <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
+{
+    for &idx in db.extractor().key_indices() {
+        let column = batch.column(idx);
+        if let Some(row) = (0..column.len()).find(|row| column.is_null(*row)) {
+            let name = db.schema.field(idx).name();
+            return Err(KeyExtractError::Arrow(ArrowError::ComputeError(format!(
+                "key column '{name}' contained null at row {row}"
+            ))));
+        }
+    }
+    Ok(())
+}
+
 fn validate_vec_tombstone_bitmap(
     batch: &RecordBatch,
     tombstones: &[bool],
-- 
2.43.0


From 4c73414b7b5d7986a7db477514ed678febfd6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:55 +0000
Subject: [PATCH 20/38] fix: start the commit clock past what the manifest
 holds

---
 src/db/builder.rs |  8 ++++++++
 src/db/mod.rs     | 24 ++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 701f7ca..9e766c1 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -1140,6 +1140,10 @@ where
             wal_cfg.clone(),
             executor,
         );
+        inner
+            .advance_clock_past_manifest()
+            .await
+            .map_err(DbBuildError::Manifest)?;
 
         inner.minor_compaction = minor_compaction_state;
         if let Some(options) = compaction_options.as_ref() {
@@ -1731,6 +1735,10 @@ where
             )
             .await
             .map_err(DbBuildError::Mode)?;
+            inner
+                .advance_clock_past_manifest()
+                .await
+                .map_err(DbBuildError::Manifest)?;
             inner.minor_compaction = minor_compaction_state;
             if let Some(options) = compaction_options.as_ref() {
                 inner.l0_backpressure = options.backpressure().cloned();
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 47dc2f9..8ab6bd1 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -937,6 +937,30 @@ where
         self.commit_clock.alloc()
     }
 
+    /// Move the commit clock past everything the manifest already holds when opening.
+    ///
+    /// The WAL alone does not tell: its segments may be gone once flushed. A database without
+    /// SSTs starts above zero, the timestamp a snapshot of an empty database reads at.
+    pub(crate) async fn advance_clock_past_manifest(&self) -> Result<(), ManifestError> {
+        let snapshot = self
+            .manifest
+            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+            .await?;
+        let newest = snapshot
+            .latest_version
+            .as_ref()
+            .map(|version| version.ssts())
+            .unwrap_or(&[])
+            .iter()
+            .flatten()
+            .filter_map(|entry| entry.stats().and_then(|stats| stats.max_commit_ts))
+            .max()
+            .unwrap_or(Timestamp::MIN);
+        self.commit_clock
+            .advance_to_at_least(newest.saturating_add(1));
+        Ok(())
+    }
+
     /// Number of immutable segments attached to this DB (oldest..newest).
     pub(crate) fn num_immutable_segments(&self) -> usize {
         self.seal_state_lock().immutables.len()
-- 
2.43.0


From a7a2ea7df3cebf3989a4f04ec44f8a78f1c315a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:18 +0000
Subject: [PATCH 21/38] fix: keep value conditions after the merge unless keys
 have one version

---
 src/db/scan.rs    | 142 +++++++++++++++++++++++++++++++++++++++++-----
 src/query/scan.rs |   2 +-
 2 files changed, 130 insertions(+), 14 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index d3386df..887fd5d 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -20,7 +20,10 @@ use parquet::{
         arrow_reader::{ArrowReaderMetadata, ArrowReaderOptions},
     },
     errors::ParquetError,
-    file::metadata::{PageIndexPolicy, ParquetMetaDataReader},
+    file::{
+        metadata::{PageIndexPolicy, ParquetMetaDataReader},
+        statistics::Statistics,
+    },
 };
 use typed_arrow_dyn::DynRow;
 
@@ -29,6 +32,7 @@ use crate::{
     extractor::{KeyExtractError, KeyProjection, projection_for_columns},
     inmem::immutable::{self, ImmutableSegment},
     key::KeyOwned,
+    manifest::SstEntry,
     mode::fingerprint_schema,
     mutation::DynMutation,
     mvcc::{MVCC_COMMIT_COL, Timestamp},
@@ -45,8 +49,8 @@ use crate::{
         Expr, ScalarValue,
         scan::{
             DeleteSelection, RowSet, ScanPlan, ScanSelection, SstScanSelection, SstSelection,
-            bounds_from_expr, key_bounds_for_predicate, key_range_for_predicate,
-            next_prefix_string, projection_with_predicate,
+            bounds_from_expr, collect_predicate_columns, key_bounds_for_predicate,
+            key_range_for_predicate, next_prefix_string, projection_with_predicate,
         },
         stream::{
             Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream,
@@ -203,9 +207,6 @@ impl TxSnapshot {
         let projection_schema = projected_schema.as_ref().unwrap_or(&db.schema);
         let predicate_scan_schema =
             projection_with_predicate(&db.schema, projection_schema, Some(predicate))?;
-        let split = split_predicate_for_row_filter(predicate, &predicate_scan_schema);
-        let mut pushdown_predicate = split.pushdown;
-        let mut residual_predicate = split.residual;
         let read_ts = self.read_view().read_ts();
         let key_schema = db.extractor().key_schema();
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
@@ -265,17 +266,17 @@ impl TxSnapshot {
         } else {
             None
         };
-        residual_predicate = combine_predicates_with_and(residual_predicate, non_sst_residual);
-        let mut sst_selections = Vec::new();
-        let mut sst_requires_full_residual = false;
-        for entry in self
+        let mut candidates = Vec::new();
+        let levels = self
             .table_snapshot()
             .latest_version
             .as_ref()
             .map(|v| v.ssts())
-            .unwrap_or(&[])
+            .unwrap_or(&[]);
+        for (level, entry) in levels
             .iter()
-            .flatten()
+            .enumerate()
+            .flat_map(|(level, entries)| entries.iter().map(move |entry| (level, entry)))
         {
             if let Some(bounds) = key_bounds.as_ref() {
                 if bounds.is_empty() {
@@ -294,10 +295,33 @@ impl TxSnapshot {
             {
                 continue;
             }
+            candidates.push((level, entry));
+        }
+
+        // SSTs are filtered before the MVCC merge, so a condition on values may drop just the
+        // newest version of a key there and expose an older one. Unless no key can have two
+        // versions, only conditions on the key columns are decided early.
+        let single_version = !has_non_sst
+            && !force_predicate_columns
+            && one_version_per_key(&prune_ctx, &candidates).await?;
+        let (source_predicate, value_predicate) = if single_version {
+            (predicate.clone(), None)
+        } else {
+            split_predicate_by_key(predicate, &key_schema)
+        };
+        let split = split_predicate_for_row_filter(&source_predicate, &predicate_scan_schema);
+        let mut pushdown_predicate = split.pushdown;
+        let mut residual_predicate = combine_predicates_with_and(
+            combine_predicates_with_and(split.residual, value_predicate),
+            non_sst_residual,
+        );
+        let mut sst_selections = Vec::new();
+        let mut sst_requires_full_residual = false;
+        for (_, entry) in candidates {
             let (mut selection, requires_residual) = prune_sst_selection(
                 &prune_ctx,
                 entry.data_path(),
-                predicate,
+                &source_predicate,
                 read_ts,
                 &predicate_scan_schema,
                 &key_schema,
@@ -370,6 +394,66 @@ impl TxSnapshot {
     }
 }
 
+/// Whether the given SSTs together hold at most one version, and no tombstone, of any key.
+async fn one_version_per_key<E>(
+    ctx: &PruneContext<E>,
+    candidates: &[(usize, &SstEntry)],
+) -> Result<bool, SsTableError>
+where
+    E: Executor + Clone + 'static,
+{
+    if candidates
+        .iter()
+        .any(|(_, entry)| entry.delete_path().is_some())
+    {
+        return Ok(false);
+    }
+    // Compaction keeps the newest version only, and levels below zero do not overlap.
+    if let Some((level, _)) = candidates.first()
+        && *level > 0
+        && candidates.iter().all(|(other, _)| other == level)
+    {
+        return Ok(true);
+    }
+    match candidates {
+        [] => Ok(true),
+        // Every row comes from the same commit.
+        [(_, entry)] => {
+            if let Some(stats) = entry.stats()
+                && let (Some(min), Some(max)) = (stats.min_commit_ts, stats.max_commit_ts)
+            {
+                return Ok(min == max);
+            }
+            let metadata = parquet_metadata_cached(
+                Arc::clone(&ctx.fs),
+                entry.data_path(),
+                Arc::clone(&ctx.metadata_cache),
+                ctx.executor.clone(),
+            )
+            .await?;
+            let commits: Option<BTreeSet<i64>> = metadata
+                .row_groups()
+                .iter()
+                .map(|group| {
+                    group
+                        .columns()
+                        .iter()
+                        .find(|column| column.column_path().string() == MVCC_COMMIT_COL)
+                        .and_then(|column| match column.statistics() {
+                            Some(Statistics::Int64(stats)) => {
+                                Some([*stats.min_opt()?, *stats.max_opt()?])
+                            }
+                            _ => None,
+                        })
+                })
+                .collect::<Option<Vec<_>>>()
+                .map(|bounds| bounds.into_iter().flatten().collect());
+            Ok(commits.is_some_and(|commits| commits.len() <= 1))
+        }
+        _ => Ok(false),
+    }
+}
+
 async fn prune_sst_selection<E>(
     ctx: &PruneContext<E>,
     data_path: &fusio::path::Path,
@@ -1171,6 +1255,38 @@ fn find_bloom_filter_column(predicate: &Expr) -> Option<&str> {
     }
 }
 
+/// Split a predicate into the conjuncts over key columns alone and the rest.
+fn split_predicate_by_key(predicate: &Expr, key_schema: &SchemaRef) -> (Expr, Option<Expr>) {
+    let (conjuncts, nested) = match predicate {
+        Expr::And(children) => (children.as_slice(), true),
+        other => (std::slice::from_ref(other), false),
+    };
+    let mut on_key = Vec::new();
+    let mut rest = Vec::new();
+    for conjunct in conjuncts {
+        if nested && matches!(conjunct, Expr::And(_)) {
+            let (key, value) = split_predicate_by_key(conjunct, key_schema);
+            on_key.push(key);
+            rest.extend(value);
+            continue;
+        }
+        let mut columns = BTreeSet::new();
+        collect_predicate_columns(conjunct, &mut columns);
+        if columns
+            .iter()
+            .all(|column| key_schema.field_with_name(column).is_ok())
+        {
+            on_key.push(conjunct.clone());
+        } else {
+            rest.push(conjunct.clone());
+        }
+    }
+    (
+        combine_and_parts(on_key).unwrap_or(Expr::True),
+        combine_and_parts(rest),
+    )
+}
+
 #[derive(Debug)]
 struct NonSstPredicateSplit {
     pushdown: Option<Expr>,
diff --git a/src/query/scan.rs b/src/query/scan.rs
index a361fb9..d1c50ee 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -760,7 +760,7 @@ fn extend_projection_schema(
     Ok(Arc::new(Schema::new(fields)))
 }
 
-fn collect_predicate_columns(predicate: &Expr, out: &mut BTreeSet<String>) {
+pub(crate) fn collect_predicate_columns(predicate: &Expr, out: &mut BTreeSet<String>) {
     match predicate {
         Expr::True | Expr::False => {}
         Expr::Cmp { column, .. }
-- 
2.43.0


From 902780ad9a8b3ba9abfec7ce2da8a957312a499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:57 +0000
Subject: [PATCH 22/38] fix: apply a false predicate to tables with composite
 keys

---
 src/db/scan.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 887fd5d..ebaf462 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -1300,12 +1300,7 @@ fn split_predicate_for_non_sst(predicate: &Expr, key_schema: &SchemaRef) -> NonS
             residual: None,
         };
     }
-    if matches!(predicate, Expr::False) {
-        return NonSstPredicateSplit {
-            pushdown: Some(Expr::False),
-            residual: None,
-        };
-    }
+    // Without key bounds nothing but the residual filters rows.
     if key_schema.fields().len() != 1 {
         return NonSstPredicateSplit {
             pushdown: None,
-- 
2.43.0


From 9e40ac32621a48bcec18d2f857246ae510fb7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:07 +0000
Subject: [PATCH 23/38] fix: keep WAL frames of a batch that auto-seals the
 memtable before it

---
 src/db/mod.rs          | 38 +++++++++++++++++++++++++++-----------
 src/db/wal.rs          |  7 +++++++
 src/transaction/mod.rs |  3 +++
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 8ab6bd1..8a1977e 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -743,21 +743,26 @@ where
             .scan_with_floor(wal_floor.as_ref())
             .await
             .map_err(KeyExtractError::from)?;
-        if events.is_empty() {
-            db.set_mutable_wal_range(None);
+        let replay_range = if events.is_empty() {
+            None
         } else if let Some(ref floor_ref) = wal_floor {
-            db.set_mutable_wal_range(Some(WalFrameRange {
+            Some(WalFrameRange {
                 first: floor_ref.first_frame(),
                 last: floor_ref.last_frame(),
-            }));
+            })
         } else {
-            db.set_mutable_wal_range(Some(WalFrameRange {
+            Some(WalFrameRange {
                 first: INITIAL_FRAME_SEQ,
                 last: INITIAL_FRAME_SEQ,
-            }));
-        }
+            })
+        };
+        db.set_mutable_wal_range(replay_range);
 
         let last_commit_ts = db.replay_wal_events(events)?;
+        if db.mem.row_count() > 0 {
+            // Seals during replay took the range; what is left in the memtable needs it as well.
+            db.set_mutable_wal_range(replay_range);
+        }
         let effective_commit = last_commit_ts.or(state_commit_hint);
         if let Some(ts) = effective_commit {
             db.commit_clock.advance_to_at_least(ts.saturating_add(1));
@@ -799,10 +804,15 @@ where
         // Record WAL spans BEFORE insert that may trigger auto-seal.
         // If we record after, a sealed segment would miss the current batch's frames,
         // causing WAL GC to prematurely delete frames needed for recovery.
-        for (first, last) in wal_spans {
+        for &(first, last) in &wal_spans {
             self.observe_mutable_wal_span(first, last);
         }
         self.insert_into_mutable(batch, commit_ts)?;
+        // If the insert auto-sealed, the sealed segment took the range but the batch itself is in
+        // the fresh memtable, which still needs its frames.
+        for (first, last) in wal_spans {
+            self.observe_mutable_wal_span(first, last);
+        }
         self.maybe_seal_after_insert()?;
         self.maybe_run_minor_compaction().await.map_err(|err| {
             KeyExtractError::Arrow(ArrowError::ComputeError(format!(
@@ -1127,12 +1137,19 @@ where
         descriptor: SsTableDescriptor,
     ) -> Result<SsTable, SsTableError> {
         let _guard = self.flush_lock.lock().await;
-        let (immutables_snapshot, flush_count) = {
+        let (immutables_snapshot, flush_count, live_floor) = {
             let seal_read = self.seal_state_lock();
             if seal_read.immutables.is_empty() {
                 return Err(SsTableError::NoImmutableSegments);
             }
-            (seal_read.immutables.clone(), seal_read.immutables.len())
+            // The floor has to match the captured segments: a seal during the flush moves the
+            // mutable range to a segment that this flush does not write.
+            let live_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+            (
+                seal_read.immutables.clone(),
+                seal_read.immutables.len(),
+                live_floor,
+            )
         };
         let mut builder = SsTableBuilder::new(config, descriptor);
         for seg in &immutables_snapshot {
@@ -1142,7 +1159,6 @@ where
             builder.add_immutable(seg)?;
         }
         let existing_floor = self.manifest_wal_floor().await;
-        let live_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let (wal_ids, wal_refs) = if let Some(cfg) = &self.wal_config {
             match manifest_ext::collect_wal_segment_refs(cfg, existing_floor.as_ref(), live_floor)
                 .await
diff --git a/src/db/wal.rs b/src/db/wal.rs
index b85d706..ef907a6 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -499,12 +499,19 @@ where
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
         }
+        // An auto-seal takes the range, but the batch it made room for is in the fresh memtable.
+        if let Some(range) = wal_range {
+            db.record_mutable_wal_range(range);
+        }
         if let Some(batch) = delete_batch
             && let Some(sealed) = db.mem.insert_delete_batch(batch)?
         {
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
         }
+        if let Some(range) = wal_range {
+            db.record_mutable_wal_range(range);
+        }
         db.maybe_seal_after_insert()?;
         db.maybe_run_minor_compaction()
             .await
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 49c2033..f46b6c8 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -663,6 +663,9 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
+                    // An auto-seal took the range, but this transaction may be in the fresh
+                    // memtable.
+                    publish_ctx.record_wal_range(&wal_range);
                     publish_ctx.finalize_manifest(wal_range).await?;
                 }
                 CommitAckMode::Fast => {
-- 
2.43.0


From 1489324b9abf648f527727019fe70ef5148041bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 24/38] fix: keep compaction outputs when the manifest publish
 outcome is unknown

---
 src/compaction/driver.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compaction/driver.rs b/src/compaction/driver.rs
index 6d97a23..9235806 100644
--- a/src/compaction/driver.rs
+++ b/src/compaction/driver.rs
@@ -621,7 +621,11 @@ where
                     continue;
                 }
                 Err(err) => {
-                    executor.cleanup_outputs(&outcome.outputs).await?;
+                    // A failed publish can still take effect: a durable manifest segment is
+                    // adopted later, and its version then refers to the outputs.
+                    if !matches!(err, ManifestError::Backend(_)) {
+                        executor.cleanup_outputs(&outcome.outputs).await?;
+                    }
                     log_warn!(
                         component = "manifest",
                         event = "manifest_apply_failed",
@@ -846,7 +850,11 @@ where
                     continue;
                 }
                 Err(err) => {
-                    executor.cleanup_outputs(&outcome.outputs).await?;
+                    // A failed publish can still take effect: a durable manifest segment is
+                    // adopted later, and its version then refers to the outputs.
+                    if !matches!(err, ManifestError::Backend(_)) {
+                        executor.cleanup_outputs(&outcome.outputs).await?;
+                    }
                     log_warn!(
                         component = "manifest",
                         event = "manifest_apply_failed",
-- 
2.43.0


From b71e5d2d2eb5f87424a3f4e2a2645fb918c05038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 25/38] verif: read timestamps, reads at a timestamp, and
 flushes that find nothing left

---
 src/db/verif.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/db/verif.rs b/src/db/verif.rs
index 8ce6a81..af585a2 100644
--- a/src/db/verif.rs
+++ b/src/db/verif.rs
@@ -15,7 +15,7 @@ use crate::{
     },
     inmem::mutable::DynMem,
     manifest::ManifestFs,
-    ondisk::sstable::{SsTableDescriptor, SsTableId},
+    ondisk::sstable::{SsTableDescriptor, SsTableError, SsTableId},
 };
 
 impl<FS, E> DB<FS, E>
@@ -77,11 +77,14 @@ where
             .as_ref()
             .map(|m| Arc::clone(&m.config))
             .ok_or("no sst config")?;
-        inner
+        match inner
             .flush_immutables_with_descriptor(config, SsTableDescriptor::new(SsTableId::new(id), 0))
             .await
-            .map_err(|e| e.to_string())?;
-        Ok(true)
+        {
+            Ok(_) => Ok(true),
+            Err(SsTableError::NoImmutableSegments) => Ok(false),
+            Err(e) => Err(e.to_string()),
+        }
     }
 
     /// Run one major compaction round. Outputs take ids from `start_id`.
@@ -97,10 +100,8 @@ where
             .as_ref()
             .map(|m| Arc::clone(&m.config))
             .ok_or("no sst config")?;
-        let mut executor = LocalCompactionExecutor::with_id_allocator(
-            config,
-            Arc::new(AtomicU64::new(start_id)),
-        );
+        let mut executor =
+            LocalCompactionExecutor::with_id_allocator(config, Arc::new(AtomicU64::new(start_id)));
         if let Some(rows) = max_output_rows {
             executor = executor.with_max_output_rows(rows);
         }
@@ -113,6 +114,21 @@ where
         Ok(outcome.is_some())
     }
 
+    /// Timestamp a snapshot reads at.
+    pub fn verif_read_ts(snapshot: &crate::transaction::Snapshot) -> u64 {
+        snapshot.read_view().read_ts().get()
+    }
+
+    /// Read at a timestamp.
+    pub async fn verif_snapshot_at(
+        &self,
+        timestamp: u64,
+    ) -> Result<crate::transaction::Snapshot, String> {
+        self.snapshot_at(crate::mvcc::Timestamp::new(timestamp))
+            .await
+            .map_err(|e| e.to_string())
+    }
+
     /// Tables per level in the latest manifest version.
     pub async fn verif_levels(&self) -> Result<Vec<Vec<u64>>, String> {
         let snapshot = self
-- 
2.43.0


From 5d3c2d683421d61933eff71f2553cd651879b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 26/38] fix: keep value conditions after the merge when tables
 of a level overlap

Level 1 is filled without regard to the tables it already holds, so two of its tables can hold
versions of one key, and a scan that filtered values inside the tables returned the older one.
---
 src/db/scan.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index ebaf462..24eae7a 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -408,12 +408,21 @@ where
     {
         return Ok(false);
     }
-    // Compaction keeps the newest version only, and levels below zero do not overlap.
-    if let Some((level, _)) = candidates.first()
-        && *level > 0
-        && candidates.iter().all(|(other, _)| other == level)
-    {
-        return Ok(true);
+    // Compaction keeps the newest version only, so keys repeat only where tables overlap.
+    if !candidates.is_empty() && candidates.iter().all(|(level, _)| *level > 0) {
+        let mut ranges: Vec<_> = candidates
+            .iter()
+            .filter_map(|(_, entry)| {
+                let stats = entry.stats()?;
+                Some((stats.min_key.as_ref()?, stats.max_key.as_ref()?))
+            })
+            .collect();
+        ranges.sort();
+        if candidates.len() == 1
+            || ranges.len() == candidates.len() && ranges.windows(2).all(|w| w[0].1 < w[1].0)
+        {
+            return Ok(true);
+        }
     }
     match candidates {
         [] => Ok(true),
-- 
2.43.0


From 40cb4203db3e9a08d255950f21d746bc1e242bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 27/38] fix: publish manifest edits of one process one at a
 time

Concurrent commits and flushes raced for the manifest head, and the loser reported a failed
precondition for a commit that was already applied.
---
 src/manifest/driver.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/manifest/driver.rs b/src/manifest/driver.rs
index b176efd..4fa3eb0 100644
--- a/src/manifest/driver.rs
+++ b/src/manifest/driver.rs
@@ -12,6 +12,7 @@ use fusio_manifest::{
     snapshot::{ScanRange, Snapshot},
     types::Error as FusioManifestError,
 };
+use futures::lock::Mutex as AsyncMutex;
 use thiserror::Error;
 use tracing::instrument;
 
@@ -104,6 +105,8 @@ where
     E: Executor + Timer + Clone + 'static,
 {
     inner: FusioManifest<C::Key, C::Value, HS, SS, CS, LS, E, DefaultRetention>,
+    /// Held while publishing, so that writers of one process do not race for the head.
+    publish: Arc<AsyncMutex<()>>,
 }
 
 impl<C, HS, SS, CS, LS, E> Manifest<C, HS, SS, CS, LS, E>
@@ -129,6 +132,7 @@ where
                 stores.lease,
                 ctx,
             ),
+            publish: Arc::default(),
         }
     }
 }
@@ -191,6 +195,7 @@ where
             cas = expected_head.is_some(),
         );
 
+        let _publishing = self.publish.lock().await;
         let mut session = self.inner.session_write().await?;
 
         let head_key = VersionKey::TableHead { table_id: table };
@@ -655,6 +660,7 @@ where
     fn clone(&self) -> Self {
         Self {
             inner: self.inner.clone(),
+            publish: Arc::clone(&self.publish),
         }
     }
 }
-- 
2.43.0


From 7da33eb6ed9bf244c7ffbe3b4d769ab9b38c6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:57 +0000
Subject: [PATCH 28/38] fix: let the memtable be sealed while a scan of it is
 open

A scan stream held the memtable read lock across awaits, so a write that had to seal blocked its
thread, for good when the stream was to be read on the same thread.
---
 src/inmem/mutable/memtable.rs | 69 ++++++++++++++++-------------------
 src/inmem/mutable/metrics.rs  |  7 ----
 2 files changed, 32 insertions(+), 44 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 1aebb66..37771ba 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -14,7 +14,7 @@ use arrow_array::{Array, RecordBatch, UInt64Array};
 use arrow_schema::{ArrowError, SchemaRef};
 use arrow_select::concat::concat_batches;
 use crossbeam_skiplist::SkipMap;
-use parking_lot::{RwLock, RwLockReadGuard, RwLockUpgradableReadGuard};
+use parking_lot::{RwLock, RwLockUpgradableReadGuard};
 use typed_arrow_dyn::{DynProjection, DynRowRaw, DynSchema, DynViewError};
 
 use super::MutableMemTableMetrics;
@@ -293,9 +293,9 @@ impl DynMemInner {
         Ok(Ok(()))
     }
 
-    /// Seal into immutable, resetting this inner state.
+    /// Seal into immutable. The caller replaces this state; scans that hold it can go on reading.
     fn seal(
-        &mut self,
+        &self,
         schema: &SchemaRef,
         extractor: &dyn KeyProjection,
     ) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
@@ -311,11 +311,10 @@ impl DynMemInner {
             })
         };
 
-        // Take ownership of the index. SkipMap iteration is already sorted by
+        // SkipMap iteration is already sorted by
         // KeyTsOwned's Ord impl: (key ascending, timestamp descending).
         // No additional sorting is needed.
-        let index = std::mem::replace(&mut self.index, SkipMap::new());
-        let entry_count = index.len();
+        let entry_count = self.index.len();
 
         // Pre-allocate vectors with known capacity to avoid reallocations.
         let mut slices = Vec::with_capacity(entry_count);
@@ -334,9 +333,9 @@ impl DynMemInner {
 
         // Single pass: extract row slices and collect metadata.
         // SkipMap iterates in sorted order (key asc, ts desc) - no sort needed.
-        for (view, mutation) in index.into_iter() {
-            let ts = view.timestamp();
-            match mutation {
+        for entry in self.index.iter() {
+            let ts = entry.key().timestamp();
+            match entry.value() {
                 DynMutation::Upsert(loc) => {
                     let attachment = self.batch_slots[loc.batch_idx]
                         .get()
@@ -364,22 +363,6 @@ impl DynMemInner {
             }
         }
 
-        // Reset batch slots by replacing with fresh OnceLocks.
-        let capacity = self.batch_slots.len();
-        let fresh_batch_slots: Vec<OnceLock<BatchAttachment>> =
-            (0..capacity).map(|_| OnceLock::new()).collect();
-        self.batch_slots = fresh_batch_slots.into_boxed_slice();
-        self.batch_cursor.store(0, Ordering::SeqCst);
-
-        // Reset delete slots by replacing with fresh OnceLocks.
-        let delete_capacity = self.delete_slots.len();
-        let fresh_delete_slots: Vec<OnceLock<DeleteAttachment>> =
-            (0..delete_capacity).map(|_| OnceLock::new()).collect();
-        self.delete_slots = fresh_delete_slots.into_boxed_slice();
-        self.delete_cursor.store(0, Ordering::SeqCst);
-
-        self.metrics.reset_counters();
-
         let batch = if slices.is_empty() {
             RecordBatch::new_empty(schema.clone())
         } else if slices.len() == 1 {
@@ -601,7 +584,8 @@ impl DynMemInner {
 /// - Uses lock-free batch slot reservation for high-throughput concurrent inserts.
 /// - Automatically seals into immutable when capacity is exhausted.
 pub struct DynMem {
-    inner: RwLock<DynMemInner>,
+    /// Replaced as a whole on sealing, so that scans read their state without a lock.
+    inner: RwLock<Arc<DynMemInner>>,
     extractor: Arc<dyn KeyProjection>,
     delete_projection: Arc<dyn KeyProjection>,
     schema: SchemaRef,
@@ -626,7 +610,7 @@ impl DynMem {
         capacity: usize,
     ) -> Self {
         Self {
-            inner: RwLock::new(DynMemInner::new(capacity)),
+            inner: RwLock::new(Arc::new(DynMemInner::new(capacity))),
             extractor,
             delete_projection,
             schema,
@@ -636,12 +620,11 @@ impl DynMem {
 
     /// Acquire a read guard for scanning operations.
     ///
-    /// The returned guard keeps the memtable locked for reading, allowing
-    /// concurrent reads but blocking writes. Use this for scan operations
-    /// that need to hold a consistent view.
+    /// The returned guard keeps the current state alive, also past a seal, without locking the
+    /// memtable: a scan stays open across awaits, and a lock would block the writer that seals.
     pub(crate) fn read(&self) -> DynMemReadGuard<'_> {
         DynMemReadGuard {
-            guard: self.inner.read(),
+            guard: Arc::clone(&self.inner.read()),
             schema: &self.schema,
         }
     }
@@ -700,7 +683,7 @@ impl DynMem {
         let mut write_guard = RwLockUpgradableReadGuard::upgrade(guard);
 
         // Seal the current state
-        let sealed = write_guard.seal(&self.schema, self.extractor.as_ref())?;
+        let sealed = self.seal(&mut write_guard)?;
 
         // Now retry the insert on the fresh state
         match write_guard.try_insert_batch(self.extractor.as_ref(), batch, commit_ts_column) {
@@ -736,7 +719,7 @@ impl DynMem {
         }
 
         let mut write_guard = RwLockUpgradableReadGuard::upgrade(guard);
-        let sealed = write_guard.seal(&self.schema, self.extractor.as_ref())?;
+        let sealed = self.seal(&mut write_guard)?;
 
         match write_guard.try_insert_delete_batch(self.delete_projection.as_ref(), batch) {
             Ok(Ok(())) => Ok(sealed),
@@ -752,7 +735,19 @@ impl DynMem {
     /// Returns `None` if the memtable was empty.
     pub(crate) fn seal_now(&self) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
         let mut guard = self.inner.write();
-        guard.seal(&self.schema, self.extractor.as_ref())
+        self.seal(&mut guard)
+    }
+
+    /// Seal the state behind the write lock and start a fresh one.
+    fn seal(
+        &self,
+        inner: &mut Arc<DynMemInner>,
+    ) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
+        let sealed = inner.seal(&self.schema, self.extractor.as_ref())?;
+        if sealed.is_some() {
+            *inner = Arc::new(DynMemInner::new(inner.batch_slots.len()));
+        }
+        Ok(sealed)
     }
 
     /// Return `true` if there is any committed version for `key` newer than `snapshot_ts`.
@@ -787,8 +782,8 @@ impl DynMem {
     /// the same time the batches are released.
     #[cfg(test)]
     pub(crate) fn into_attached_batches(self) -> Vec<RecordBatch> {
-        self.inner
-            .into_inner()
+        Arc::into_inner(self.inner.into_inner())
+            .expect("no scan is open")
             .batch_slots
             .into_vec()
             .into_iter()
@@ -810,7 +805,7 @@ impl DynMem {
 
 /// Guard providing read access to the memtable's inner state.
 pub struct DynMemReadGuard<'a> {
-    guard: RwLockReadGuard<'a, DynMemInner>,
+    guard: Arc<DynMemInner>,
     schema: &'a SchemaRef,
 }
 
diff --git a/src/inmem/mutable/metrics.rs b/src/inmem/mutable/metrics.rs
index 6119332..adeaf36 100644
--- a/src/inmem/mutable/metrics.rs
+++ b/src/inmem/mutable/metrics.rs
@@ -49,13 +49,6 @@ impl MutableMemTableMetrics {
             entry_overhead: self.entry_overhead.load(Ordering::Relaxed),
         }
     }
-
-    pub(crate) fn reset_counters(&self) {
-        self.entries.store(0, Ordering::Relaxed);
-        self.inserts.store(0, Ordering::Relaxed);
-        self.replaces.store(0, Ordering::Relaxed);
-        self.approx_key_bytes.store(0, Ordering::Relaxed);
-    }
 }
 
 impl Default for MutableMemTableMetrics {
-- 
2.43.0


From 92fa18788cab7f48e09a7fbe308631280173c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 29/38] fix: let a snapshot keep the memtables it reads

A snapshot or transaction kept the manifest version of its start but read whatever memtables the
database had at the time of the scan, so rows that were flushed in between were in neither, and a
scan that planned before a flush picked the wrong segments after it.
---
 src/db/mod.rs                 | 102 +++++++++++++++++++++-------------
 src/db/scan.rs                |  35 ++++++------
 src/db/wal.rs                 |   2 +
 src/inmem/mod.rs              |  18 ++++++
 src/inmem/mutable/memtable.rs |  20 ++++++-
 src/query/scan.rs             |   2 +
 src/transaction/mod.rs        |  14 ++++-
 7 files changed, 135 insertions(+), 58 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 8a1977e..d3e89d3 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -58,7 +58,7 @@ pub use crate::{
 use crate::{
     extractor::{KeyExtractError, KeyProjection},
     id::FileId,
-    inmem::mutable::DynMem,
+    inmem::{PinnedMemtables, mutable::DynMem},
     key::KeyOwned,
     manifest::{
         ManifestError, ManifestFs, SstEntry, TableId, TableMeta, TonboManifest, VersionEdit,
@@ -835,17 +835,35 @@ where
 
     /// Open a read-only snapshot pinned to the current manifest head.
     pub async fn begin_snapshot(&self) -> Result<TxSnapshot, SnapshotError> {
-        let manifest_snapshot = self
-            .manifest
-            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
-            .await?;
-        let next_ts = self.commit_clock.peek();
-        let read_ts = next_ts.saturating_sub(1);
-        let read_view = ReadView::new(read_ts);
-        Ok(TxSnapshot::from_table_snapshot(
-            read_view,
-            manifest_snapshot,
-        ))
+        loop {
+            let flushes = self.seal_state_lock().flushes;
+            let manifest_snapshot = self
+                .manifest
+                .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+                .await?;
+            let seal = self.seal_state_lock();
+            let Some(memtables) = self.pin_memtables(&seal, flushes) else {
+                continue;
+            };
+            let next_ts = self.commit_clock.peek();
+            drop(seal);
+            let read_ts = next_ts.saturating_sub(1);
+            let read_view = ReadView::new(read_ts);
+            return Ok(TxSnapshot::from_table_snapshot(
+                read_view,
+                manifest_snapshot,
+                memtables,
+            ));
+        }
+    }
+
+    /// Capture the memtables to read along with a manifest head loaded since the number of
+    /// flushes was `flushes`. Returns `None` if a flush moved rows out of the memtables since.
+    fn pin_memtables(&self, seal: &SealState, flushes: u64) -> Option<PinnedMemtables> {
+        (seal.flushes == flushes).then(|| PinnedMemtables {
+            mutable: Arc::new(self.mem.pin()),
+            immutables: seal.immutables.clone(),
+        })
     }
 
     /// Open a read-only snapshot pinned to a specific historical timestamp.
@@ -869,33 +887,40 @@ where
     /// }
     /// ```
     pub async fn snapshot_at(&self, timestamp: Timestamp) -> Result<TxSnapshot, SnapshotError> {
-        // Find the version that was active at the requested timestamp.
-        // List versions to find one with commit_timestamp <= requested timestamp.
-        let versions = self
-            .manifest
-            .list_versions(self.manifest_table, 0) // 0 = unlimited
-            .await?;
-
-        // Find the version at or before the requested timestamp (versions are newest-first)
-        let target_version = versions.iter().find(|v| v.commit_timestamp <= timestamp);
-
-        let manifest_snapshot = if let Some(version) = target_version {
-            // Load the historical version from manifest
-            self.manifest
-                .snapshot_at_version(self.manifest_table, version.commit_timestamp)
-                .await?
-        } else {
-            // No version at or before the timestamp - use latest with MVCC filtering
-            self.manifest
-                .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
-                .await?
-        };
+        loop {
+            let flushes = self.seal_state_lock().flushes;
+            // Find the version that was active at the requested timestamp.
+            // List versions to find one with commit_timestamp <= requested timestamp.
+            let versions = self
+                .manifest
+                .list_versions(self.manifest_table, 0) // 0 = unlimited
+                .await?;
+
+            // Find the version at or before the requested timestamp (versions are newest-first)
+            let target_version = versions.iter().find(|v| v.commit_timestamp <= timestamp);
+
+            let manifest_snapshot = if let Some(version) = target_version {
+                // Load the historical version from manifest
+                self.manifest
+                    .snapshot_at_version(self.manifest_table, version.commit_timestamp)
+                    .await?
+            } else {
+                // No version at or before the timestamp - use latest with MVCC filtering
+                self.manifest
+                    .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+                    .await?
+            };
 
-        let read_view = ReadView::new(timestamp);
-        Ok(TxSnapshot::from_table_snapshot(
-            read_view,
-            manifest_snapshot,
-        ))
+            let Some(memtables) = self.pin_memtables(&self.seal_state_lock(), flushes) else {
+                continue;
+            };
+            let read_view = ReadView::new(timestamp);
+            return Ok(TxSnapshot::from_table_snapshot(
+                read_view,
+                manifest_snapshot,
+                memtables,
+            ));
+        }
     }
 
     /// List committed versions of the database, ordered newest-first.
@@ -1228,6 +1253,7 @@ where
                 // Only remove the segments we actually flushed (the first `flush_count`).
                 // New segments may have been appended concurrently; those must be preserved.
                 let mut seal = self.seal_state_lock();
+                seal.flushes += 1;
                 let actual_len = seal.immutables.len();
                 if actual_len >= flush_count {
                     seal.immutables.drain(0..flush_count);
diff --git a/src/db/scan.rs b/src/db/scan.rs
index 24eae7a..2aed430 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -212,23 +212,24 @@ impl TxSnapshot {
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
         let key_range = key_range_for_predicate(predicate, &key_schema);
         let (immutable_indexes, immutable_row_sets) = {
-            let seal = db.seal_state_lock();
+            let immutables = &self.memtables().immutables;
             let prune_input: Vec<&ImmutableSegment> =
-                seal.immutables.iter().map(|arc| arc.as_ref()).collect();
+                immutables.iter().map(|arc| arc.as_ref()).collect();
             let indexes = immutable::prune_segments(&prune_input, key_bounds.as_ref(), read_ts);
             let row_sets = indexes
                 .iter()
-                .filter_map(|idx| seal.immutables.get(*idx))
+                .filter_map(|idx| immutables.get(*idx))
                 .map(|segment| RowSet::all(segment.entry_count()))
                 .collect();
             (indexes, row_sets)
         };
         let mutable_row_set = {
-            let row_count = db.mem.row_count();
+            let mem = &self.memtables().mutable;
+            let row_count = mem.row_count();
             if row_count == 0 {
                 RowSet::all(0)
             } else {
-                let (min_key, max_key) = db.mem.key_bounds();
+                let (min_key, max_key) = mem.key_bounds();
                 let mut keep = true;
                 if let (Some(min_key), Some(max_key)) = (min_key.as_ref(), max_key.as_ref())
                     && let Some(bounds) = key_bounds.as_ref()
@@ -237,7 +238,7 @@ impl TxSnapshot {
                     keep = false;
                 }
                 if keep
-                    && let Some((min_commit_ts, _)) = db.mem.commit_ts_bounds()
+                    && let Some((min_commit_ts, _)) = mem.commit_ts_bounds()
                     && min_commit_ts > read_ts
                 {
                     keep = false;
@@ -389,6 +390,7 @@ impl TxSnapshot {
             scan_schema,
             limit,
             read_ts,
+            memtables: self.memtables().clone(),
             _snapshot: self.table_snapshot().clone(),
         })
     }
@@ -761,12 +763,12 @@ where
         if !plan.mutable_row_set.is_empty() {
             let mutable_scan = match &plan.mutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedMutableScan::from_guard(
-                    self.mem.read(),
+                    self.mem.read_pinned(&plan.memtables.mutable),
                     Some(Arc::clone(&scan_schema)),
                     plan.read_ts,
                 )?,
                 ScanSelection::KeyRange(range) => OwnedMutableScan::from_guard_range(
-                    self.mem.read(),
+                    self.mem.read_pinned(&plan.memtables.mutable),
                     Some(Arc::clone(&scan_schema)),
                     plan.read_ts,
                     range.start.clone(),
@@ -776,22 +778,19 @@ where
             streams.push(ScanStream::from(mutable_scan));
         }
 
-        let immutables: Vec<Arc<ImmutableSegment>> = {
-            let seal = self.seal_state_lock();
-            plan.immutable_indexes
-                .iter()
-                .filter_map(|idx| seal.immutables.get(*idx).cloned())
-                .collect()
-        };
-        for segment in immutables {
+        for segment in plan
+            .immutable_indexes
+            .iter()
+            .filter_map(|idx| plan.memtables.immutables.get(*idx))
+        {
             let owned = match &plan.immutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedImmutableScan::from_arc(
-                    Arc::clone(&segment),
+                    Arc::clone(segment),
                     Some(Arc::clone(&scan_schema)),
                     plan.read_ts,
                 )?,
                 ScanSelection::KeyRange(range) => OwnedImmutableScan::from_arc_range(
-                    Arc::clone(&segment),
+                    Arc::clone(segment),
                     Some(Arc::clone(&scan_schema)),
                     plan.read_ts,
                     range.start.clone(),
diff --git a/src/db/wal.rs b/src/db/wal.rs
index ef907a6..48c5b90 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -89,6 +89,8 @@ pub(crate) struct SealState {
     pub(crate) immutables: Vec<Arc<ImmutableSegment>>,
     pub(crate) immutable_wal_ranges: Vec<Option<WalFrameRange>>,
     pub(crate) last_seal_at: Option<Instant>,
+    /// Number of flushes that moved segments from `immutables` to the manifest.
+    pub(crate) flushes: u64,
 }
 
 type PendingWalTxns = HashMap<u64, PendingWalTxn>;
diff --git a/src/inmem/mod.rs b/src/inmem/mod.rs
index 922cbee..b59a694 100644
--- a/src/inmem/mod.rs
+++ b/src/inmem/mod.rs
@@ -3,6 +3,24 @@
 //! - `mutable/` contains the columnar mutable memtable with a last-writer key index.
 //! - `immutable/` contains typed arrays and the zero-copy immutable memtable.
 
+use std::{fmt, sync::Arc};
+
 pub(crate) mod immutable;
 pub(crate) mod mutable;
 pub(crate) mod policy;
+
+/// The memtables a snapshot reads, kept alive when they are sealed or flushed meanwhile.
+#[derive(Clone)]
+pub(crate) struct PinnedMemtables {
+    pub(crate) mutable: Arc<mutable::DynMem>,
+    pub(crate) immutables: Vec<Arc<immutable::ImmutableSegment>>,
+}
+
+impl fmt::Debug for PinnedMemtables {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("PinnedMemtables")
+            .field("mutable", &self.mutable)
+            .field("immutables", &self.immutables.len())
+            .finish()
+    }
+}
diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 37771ba..bf3e34f 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -622,13 +622,31 @@ impl DynMem {
     ///
     /// The returned guard keeps the current state alive, also past a seal, without locking the
     /// memtable: a scan stays open across awaits, and a lock would block the writer that seals.
+    #[cfg(any(test, tonbo_verif))]
     pub(crate) fn read(&self) -> DynMemReadGuard<'_> {
+        self.read_pinned(self)
+    }
+
+    /// Like [`read`](Self::read), for the state held by a memtable that
+    /// [`pin`](Self::pin) returned.
+    pub(crate) fn read_pinned(&self, pinned: &DynMem) -> DynMemReadGuard<'_> {
         DynMemReadGuard {
-            guard: Arc::clone(&self.inner.read()),
+            guard: Arc::clone(&pinned.inner.read()),
             schema: &self.schema,
         }
     }
 
+    /// A memtable sharing the current state, which it keeps past a seal of this one.
+    pub(crate) fn pin(&self) -> DynMem {
+        DynMem {
+            inner: RwLock::new(Arc::clone(&self.inner.read())),
+            extractor: Arc::clone(&self.extractor),
+            delete_projection: Arc::clone(&self.delete_projection),
+            schema: Arc::clone(&self.schema),
+            capacity: self.capacity,
+        }
+    }
+
     /// Insert a dynamic batch, auto-sealing if capacity is reached.
     ///
     /// Returns `Some(immutable)` if the memtable was sealed during this insert.
diff --git a/src/query/scan.rs b/src/query/scan.rs
index d1c50ee..bb50581 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -16,6 +16,7 @@ use thiserror::Error;
 
 use crate::{
     extractor::KeyExtractError,
+    inmem::PinnedMemtables,
     key::KeyOwned,
     manifest::{SstEntry, TableSnapshot},
     mvcc::Timestamp,
@@ -482,6 +483,7 @@ pub(crate) struct ScanPlan {
     pub(crate) limit: Option<usize>,
     pub(crate) read_ts: Timestamp,
 
+    pub(crate) memtables: PinnedMemtables,
     pub(crate) _snapshot: TableSnapshot,
 }
 
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index f46b6c8..fd3c7c7 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -22,6 +22,7 @@ use crate::manifest::{TableHead, VersionState};
 use crate::{
     db::{DBError, DbInner, DynDbHandle, ScanBuilder, TxnWalPublishContext, WalFrameRange},
     extractor::{KeyExtractError, KeyProjection, row_from_batch},
+    inmem::PinnedMemtables,
     key::{KeyOwned, KeyTsViewRaw},
     manifest::{ManifestError, TableSnapshot, VersionEdit},
     mutation::DynMutation,
@@ -64,16 +65,27 @@ pub enum SnapshotError {
 pub struct Snapshot {
     read_view: ReadView,
     manifest: TableSnapshot,
+    memtables: PinnedMemtables,
 }
 
 impl Snapshot {
-    pub(crate) fn from_table_snapshot(read_view: ReadView, manifest: TableSnapshot) -> Self {
+    pub(crate) fn from_table_snapshot(
+        read_view: ReadView,
+        manifest: TableSnapshot,
+        memtables: PinnedMemtables,
+    ) -> Self {
         Self {
             read_view,
             manifest,
+            memtables,
         }
     }
 
+    /// Memtables captured together with the manifest head.
+    pub(crate) fn memtables(&self) -> &PinnedMemtables {
+        &self.memtables
+    }
+
     /// MVCC visibility guard captured when the snapshot was created.
     pub(crate) fn read_view(&self) -> ReadView {
         self.read_view
-- 
2.43.0


From 7b4778dbdad0602de15ad7476bce7cb375926211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 30/38] fix: check conflicts against segments flushed since a
 transaction began

Only memtables were searched for newer versions of the keys a transaction writes, so it committed
over a newer version that had been flushed since it began.
---
 src/db/mod.rs | 26 +++++++++++++++++---------
 src/db/wal.rs | 44 +++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index d3e89d3..a8e965f 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -310,7 +310,7 @@ where
     /// allows staging mutations (upserts, deletes) before committing atomically.
     pub async fn begin_transaction(&self) -> Result<Transaction<FS, E>, TransactionError> {
         let handle = Arc::clone(&self.inner);
-        let snapshot = handle.begin_snapshot().await?;
+        let snapshot = handle.open_snapshot(true).await?;
         let durability = if handle.wal_handle().is_some() {
             TransactionDurability::Durable
         } else {
@@ -835,19 +835,27 @@ where
 
     /// Open a read-only snapshot pinned to the current manifest head.
     pub async fn begin_snapshot(&self) -> Result<TxSnapshot, SnapshotError> {
+        self.open_snapshot(false).await
+    }
+
+    /// Open a snapshot, for a transaction if it is going to check for conflicts.
+    async fn open_snapshot(&self, for_txn: bool) -> Result<TxSnapshot, SnapshotError> {
         loop {
             let flushes = self.seal_state_lock().flushes;
             let manifest_snapshot = self
                 .manifest
                 .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
                 .await?;
-            let seal = self.seal_state_lock();
+            let mut seal = self.seal_state_lock();
             let Some(memtables) = self.pin_memtables(&seal, flushes) else {
                 continue;
             };
             let next_ts = self.commit_clock.peek();
-            drop(seal);
             let read_ts = next_ts.saturating_sub(1);
+            if for_txn {
+                seal.track_txn(read_ts, &memtables);
+            }
+            drop(seal);
             let read_view = ReadView::new(read_ts);
             return Ok(TxSnapshot::from_table_snapshot(
                 read_view,
@@ -1255,12 +1263,12 @@ where
                 let mut seal = self.seal_state_lock();
                 seal.flushes += 1;
                 let actual_len = seal.immutables.len();
-                if actual_len >= flush_count {
-                    seal.immutables.drain(0..flush_count);
-                } else {
-                    // Defensive: should not happen, but clear if state is inconsistent.
-                    seal.immutables.clear();
-                }
+                // Defensive: should not be shorter, but clear if state is inconsistent.
+                let flushed = seal
+                    .immutables
+                    .drain(0..flush_count.min(actual_len))
+                    .collect();
+                seal.retain_flushed(flushed);
                 let wal_ranges_len = seal.immutable_wal_ranges.len();
                 if wal_ranges_len >= flush_count {
                     seal.immutable_wal_ranges.drain(0..flush_count);
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 48c5b90..c419685 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,6 +1,6 @@
 use std::{
     collections::HashMap,
-    sync::{Arc, Mutex},
+    sync::{Arc, Mutex, Weak},
 };
 
 use arrow_array::{Array, ArrayRef, RecordBatch, UInt32Array, UInt64Array};
@@ -12,7 +12,9 @@ use crate::{
     db::DbInner,
     extractor::KeyExtractError,
     inmem::{
+        PinnedMemtables,
         immutable::{ImmutableSegment, memtable::MVCC_COMMIT_COL},
+        mutable::DynMem,
         policy::{SealDecision, StatsProvider},
     },
     key::KeyOwned,
@@ -91,6 +93,41 @@ pub(crate) struct SealState {
     pub(crate) last_seal_at: Option<Instant>,
     /// Number of flushes that moved segments from `immutables` to the manifest.
     pub(crate) flushes: u64,
+    /// Flushed segments with versions that open transactions have to conflict with.
+    pub(crate) flushed: Vec<Arc<ImmutableSegment>>,
+    /// Read timestamps of open transactions, each with the memtable its snapshot keeps alive.
+    pub(crate) open_txns: Vec<(Timestamp, Weak<DynMem>)>,
+}
+
+impl SealState {
+    /// Register a transaction reading at `read_ts` through `memtables`.
+    pub(crate) fn track_txn(&mut self, read_ts: Timestamp, memtables: &PinnedMemtables) {
+        self.forget_closed_txns();
+        self.open_txns
+            .push((read_ts, Arc::downgrade(&memtables.mutable)));
+    }
+
+    /// Keep the segments of a flush that some open transaction may conflict with.
+    pub(crate) fn retain_flushed(&mut self, segments: Vec<Arc<ImmutableSegment>>) {
+        self.forget_closed_txns();
+        let oldest = self.open_txns.iter().map(|(read_ts, _)| *read_ts).min();
+        if let Some(oldest) = oldest {
+            self.flushed.extend(segments);
+            self.flushed.retain(|segment| {
+                segment
+                    .commit_ts_bounds()
+                    .is_some_and(|(_, newest)| newest > oldest)
+            });
+        }
+    }
+
+    fn forget_closed_txns(&mut self) {
+        self.open_txns
+            .retain(|(_, memtable)| memtable.strong_count() > 0);
+        if self.open_txns.is_empty() {
+            self.flushed.clear();
+        }
+    }
 }
 
 type PendingWalTxns = HashMap<u64, PendingWalTxn>;
@@ -184,9 +221,10 @@ where
     }
 
     pub(crate) fn immutable_has_conflict(&self, key: &KeyOwned, snapshot_ts: Timestamp) -> bool {
-        self.seal_state_lock()
-            .immutables
+        let seal = self.seal_state_lock();
+        seal.immutables
             .iter()
+            .chain(&seal.flushed)
             .any(|segment| segment.has_conflict(key, snapshot_ts))
     }
 
-- 
2.43.0


From 6e474f701ee84e461bbc8bc101d94f2e81831143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 31/38] fix: do not fail a write that finds nothing left to
 flush

When two writes reach the flush threshold together, the second finds the segments flushed by the
first, and reported an error for a batch that was already applied.
---
 src/compaction/minor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compaction/minor.rs b/src/compaction/minor.rs
index de6a331..a7cea32 100644
--- a/src/compaction/minor.rs
+++ b/src/compaction/minor.rs
@@ -106,6 +106,8 @@ impl MinorCompactor {
                 }
                 Ok(Some(table))
             }
+            // A flush running meanwhile took the segments.
+            Err(SsTableError::NoImmutableSegments) => Ok(None),
             Err(err) => {
                 log_warn!(
                     component = "compaction",
-- 
2.43.0


From e7c2ce73e0a937cf06b9bc70cbb530dc8d7d388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:27 +0000
Subject: [PATCH 32/38] fix: do not list and prune WAL segments at the same
 time

A commit or flush that collected the live segments failed when a concurrent flush removed one of
them after it had been listed.
---
 src/wal/manifest_ext.rs | 2 ++
 src/wal/mod.rs          | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/wal/manifest_ext.rs b/src/wal/manifest_ext.rs
index 3950b90..c2abebf 100644
--- a/src/wal/manifest_ext.rs
+++ b/src/wal/manifest_ext.rs
@@ -17,6 +17,7 @@ pub(crate) async fn collect_wal_segment_refs(
     manifest_floor: Option<&WalSegmentRef>,
     live_frame_floor: Option<u64>,
 ) -> Result<Vec<WalSegmentRef>, WalError> {
+    let _segments = cfg.segments_lock.lock().await;
     let storage = WalStorage::new(Arc::clone(&cfg.segment_backend), cfg.dir.clone());
     let wal_state_hint = storage
         .load_state_handle(cfg.state_store.as_ref())
@@ -98,6 +99,7 @@ pub(crate) async fn prune_wal_segments(
     cfg: &WalConfig,
     floor: &WalSegmentRef,
 ) -> Result<usize, WalError> {
+    let _segments = cfg.segments_lock.lock().await;
     let storage = WalStorage::new(Arc::clone(&cfg.segment_backend), cfg.dir.clone());
     if cfg.prune_dry_run {
         let segments = storage.list_segments_with_hint(None).await?;
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index eed214f..1949a85 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -29,6 +29,7 @@ use fusio::{
 use futures::{
     SinkExt,
     channel::{mpsc, oneshot},
+    lock::Mutex as AsyncMutex,
 };
 use ulid::Ulid;
 
@@ -122,6 +123,9 @@ pub struct WalConfig {
     pub state_store: Option<Arc<dyn state::WalStateStore>>,
     /// When enabled, WAL pruning only reports planned deletions without removing objects.
     pub prune_dry_run: bool,
+    /// Held while the segments are enumerated or pruned, so that neither finds a segment that the
+    /// other has removed.
+    pub segments_lock: Arc<AsyncMutex<()>>,
 }
 
 impl Default for WalConfig {
@@ -140,6 +144,7 @@ impl Default for WalConfig {
             segment_backend: filesystem,
             state_store: None,
             prune_dry_run: false,
+            segments_lock: Arc::default(),
         }
     }
 }
-- 
2.43.0


From 60f423029959c358fa681e15857bff2e03f2248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 33/38] fix: keep WAL frames of commits in flight during a
 flush

A flush took the WAL floor from the memtable alone, so frames of a commit that had been logged but
not yet applied fell below it and were pruned: the acknowledged commit was lost at the next restart.
---
 src/db/mod.rs          | 17 +++++++--
 src/db/wal.rs          | 83 +++++++++++++++++++++++++++++++++++++++---
 src/transaction/mod.rs |  8 ++--
 src/wal/mod.rs         |  1 +
 4 files changed, 97 insertions(+), 12 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index a8e965f..0ba6c74 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -23,7 +23,7 @@ use fusio::{
 };
 use futures::lock::Mutex as AsyncMutex;
 use lockable::LockableHashMap;
-use wal::SealState;
+use wal::{SealState, WalInFlight};
 
 use crate::compaction::{CompactionHandle, MinorCompactor, metrics::CompactionBackpressureSignal};
 mod builder;
@@ -468,6 +468,8 @@ where
     mem: DynMem,
     // Immutable in-memory runs (frozen memtables) in recency order (oldest..newest) plus metadata.
     seal_state: Mutex<SealState>,
+    /// Commits whose WAL frames are not recorded with a memtable yet.
+    wal_in_flight: Arc<Mutex<WalInFlight>>,
     // Sealing policy (pure/lock-free) and last seal timestamp (held inside seal_state)
     policy: Arc<dyn SealPolicy + Send + Sync>,
     // Executor powering async subsystems such as the WAL.
@@ -529,6 +531,8 @@ where
     mem: DynMem,
     // Immutable in-memory runs (frozen memtables) in recency order (oldest..newest) plus metadata.
     seal_state: Mutex<SealState>,
+    /// Commits whose WAL frames are not recorded with a memtable yet.
+    wal_in_flight: Arc<Mutex<WalInFlight>>,
     // Sealing policy (pure/lock-free) and last seal timestamp (held inside seal_state)
     policy: Arc<dyn SealPolicy + Send + Sync>,
     // Executor powering async subsystems such as the WAL.
@@ -657,6 +661,7 @@ where
             commit_ack_mode,
             mem,
             seal_state: Mutex::new(SealState::default()),
+            wal_in_flight: Arc::default(),
             policy: crate::inmem::policy::default_policy(),
             executor,
             fs,
@@ -786,6 +791,7 @@ where
 
         let commit_ts = self.next_commit_ts();
         let mut wal_spans: Vec<(u64, u64)> = Vec::new();
+        let in_flight = self.begin_wal_commit();
         if let Some(handle) = self.wal_handle().cloned() {
             let provisional_id = handle.next_provisional_id();
             let append_ticket = handle
@@ -813,6 +819,7 @@ where
         for (first, last) in wal_spans {
             self.observe_mutable_wal_span(first, last);
         }
+        drop(in_flight);
         self.maybe_seal_after_insert()?;
         self.maybe_run_minor_compaction().await.map_err(|err| {
             KeyExtractError::Arrow(ArrowError::ComputeError(format!(
@@ -1177,11 +1184,15 @@ where
             }
             // The floor has to match the captured segments: a seal during the flush moves the
             // mutable range to a segment that this flush does not write.
-            let live_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+            // Frames that no memtable accounts for yet are needed as well.
+            let unrecorded_floor = self.unrecorded_wal_floor();
+            let live_floor = self
+                .mutable_wal_range_snapshot()
+                .map_or(unrecorded_floor, |range| range.first.min(unrecorded_floor));
             (
                 seal_read.immutables.clone(),
                 seal_read.immutables.len(),
-                live_floor,
+                Some(live_floor),
             )
         };
         let mut builder = SsTableBuilder::new(config, descriptor);
diff --git a/src/db/wal.rs b/src/db/wal.rs
index c419685..973a8e2 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,6 +1,6 @@
 use std::{
     collections::HashMap,
-    sync::{Arc, Mutex, Weak},
+    sync::{Arc, Mutex, MutexGuard, Weak},
 };
 
 use arrow_array::{Array, ArrayRef, RecordBatch, UInt32Array, UInt64Array};
@@ -82,7 +82,49 @@ where
     pub(crate) manifest_table: TableId,
     pub(crate) wal_config: Option<RuntimeWalConfig>,
     pub(crate) mutable_wal_range: Arc<Mutex<Option<WalFrameRange>>>,
+    pub(crate) wal_in_flight: Arc<Mutex<WalInFlight>>,
     pub(crate) prev_live_floor: Option<u64>,
+    pub(crate) _in_flight: Arc<u64>,
+}
+
+/// Commits whose WAL frames are not recorded with a memtable yet.
+pub(crate) struct WalInFlight {
+    /// No frame from here on has been recorded.
+    next_frame: u64,
+    /// Lower bound of the frames of each commit, while it holds the other end.
+    commits: Vec<Weak<u64>>,
+}
+
+impl Default for WalInFlight {
+    fn default() -> Self {
+        Self {
+            next_frame: u64::MAX,
+            commits: Vec::new(),
+        }
+    }
+}
+
+impl WalInFlight {
+    /// Register a commit that is about to write frames, until it drops the value returned.
+    fn begin(&mut self) -> Arc<u64> {
+        let floor = Arc::new(self.next_frame);
+        self.commits.retain(|commit| commit.strong_count() > 0);
+        self.commits.push(Arc::downgrade(&floor));
+        floor
+    }
+
+    /// Every frame below this one is recorded with a memtable.
+    fn floor(&self) -> u64 {
+        self.commits
+            .iter()
+            .filter_map(Weak::upgrade)
+            .map(|floor| *floor)
+            .fold(self.next_frame, u64::min)
+    }
+
+    pub(crate) fn record(&mut self, range: &WalFrameRange) {
+        self.next_frame = self.next_frame.max(range.last.saturating_add(1));
+    }
 }
 
 #[derive(Default)]
@@ -398,19 +440,45 @@ where
         }
     }
 
-    pub(crate) fn txn_publish_context(
-        &self,
-        prev_live_floor: Option<u64>,
-    ) -> TxnWalPublishContext<FS, E>
+    /// Register a commit that is about to write WAL frames. The value returned is to be kept until
+    /// the frames are recorded with the memtable that holds the rows.
+    pub(crate) fn begin_wal_commit(&self) -> Arc<u64> {
+        self.wal_in_flight_lock().begin()
+    }
+
+    /// Lower bound of the WAL frames that are not recorded with a memtable yet.
+    pub(crate) fn unrecorded_wal_floor(&self) -> u64 {
+        self.wal_in_flight_lock().floor()
+    }
+
+    pub(crate) fn set_next_wal_frame(&self, seq: u64) {
+        self.wal_in_flight_lock().next_frame = seq;
+    }
+
+    fn wal_in_flight_lock(&self) -> MutexGuard<'_, WalInFlight> {
+        self.wal_in_flight
+            .lock()
+            .expect("wal in-flight lock poisoned")
+    }
+
+    /// Context for a transaction that is about to write WAL frames.
+    pub(crate) fn txn_publish_context(&self) -> TxnWalPublishContext<FS, E>
     where
         E: Clone,
     {
+        let in_flight = self.begin_wal_commit();
+        let unrecorded_floor = self.unrecorded_wal_floor();
+        let prev_live_floor = self
+            .wal_live_frame_floor()
+            .map_or(unrecorded_floor, |floor| floor.min(unrecorded_floor));
         TxnWalPublishContext {
             manifest: self.manifest.clone(),
             manifest_table: self.manifest_table,
             wal_config: self.wal_config.clone(),
             mutable_wal_range: Arc::clone(&self.mutable_wal_range),
-            prev_live_floor,
+            wal_in_flight: Arc::clone(&self.wal_in_flight),
+            prev_live_floor: Some(prev_live_floor),
+            _in_flight: in_flight,
         }
     }
 
@@ -431,6 +499,7 @@ where
     }
 
     fn record_mutable_wal_range(&self, range: WalFrameRange) {
+        self.wal_in_flight_lock().record(&range);
         let mut guard = self
             .mutable_wal_range
             .lock()
@@ -491,6 +560,7 @@ where
     }
 
     let mut wal_range: Option<WalFrameRange> = None;
+    let in_flight = db.begin_wal_commit();
     if let Some(handle) = db.wal_handle().cloned() {
         let provisional_id = handle.next_provisional_id();
         let mut append_tickets = Vec::new();
@@ -552,6 +622,7 @@ where
         if let Some(range) = wal_range {
             db.record_mutable_wal_range(range);
         }
+        drop(in_flight);
         db.maybe_seal_after_insert()?;
         db.maybe_run_minor_compaction()
             .await
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index fd3c7c7..8031ea8 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -655,7 +655,7 @@ where
 
         if let Some(wal) = db.wal_handle().cloned() {
             let provisional_id = wal.next_provisional_id();
-            let prev_live_floor = db.wal_live_frame_floor();
+            let publish_ctx = db.txn_publish_context();
             let upsert_refs = upsert_payload.as_ref();
             let delete_ref = delete_payload.as_ref();
             let tickets =
@@ -664,7 +664,6 @@ where
 
             match commit_ack_mode {
                 CommitAckMode::Strict => {
-                    let publish_ctx = db.txn_publish_context(prev_live_floor);
                     let wal_range = tickets.await_range().await?;
                     // Record WAL range BEFORE apply that may trigger auto-seal.
                     // If we record after, a sealed segment would miss this transaction's frames.
@@ -691,7 +690,6 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
-                    let publish_ctx = db.txn_publish_context(prev_live_floor);
                     let executor = Arc::clone(db.executor());
                     spawn_publish_task(executor, publish_ctx, tickets);
                 }
@@ -1352,6 +1350,10 @@ where
     /// This must be called BEFORE any operation that may trigger auto-seal,
     /// otherwise the sealed segment's WAL range would be incomplete.
     fn record_wal_range(&self, wal_range: &WalFrameRange) {
+        self.wal_in_flight
+            .lock()
+            .expect("wal in-flight lock poisoned")
+            .record(wal_range);
         let mut guard = self
             .mutable_wal_range
             .lock()
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 1949a85..4280727 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -999,6 +999,7 @@ where
             retention_bytes = ?cfg.retention_bytes,
         );
 
+        self.set_next_wal_frame(initial_frame_seq);
         self.set_wal_config(Some(cfg.clone()));
         self.set_wal_handle(Some(handle.clone()));
         Ok(handle)
-- 
2.43.0


From b5c256001e9a3171ba9c127ab2d5784594609013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 34/38] verif: reach predicate evaluation and pushdown
 splitting

---
 src/db/mod.rs               |  2 +-
 src/db/scan.rs              | 16 ++++++
 src/db/verif.rs             | 16 ++++++
 src/query/scan.rs           | 16 ++++++
 src/query/stream/package.rs | 24 +++++++++
 src/verif.rs                | 98 ++++++++++++++++++++++++++++++++-----
 6 files changed, 160 insertions(+), 12 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 0ba6c74..9f13f8f 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -35,7 +35,7 @@ mod tests;
 #[cfg(tonbo_verif_full)]
 #[doc(hidden)]
 #[allow(missing_docs)]
-mod verif;
+pub(crate) mod verif;
 mod wal;
 
 pub use builder::{
diff --git a/src/db/scan.rs b/src/db/scan.rs
index 2aed430..ec8dbaa 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -1295,6 +1295,22 @@ fn split_predicate_by_key(predicate: &Expr, key_schema: &SchemaRef) -> (Expr, Op
     )
 }
 
+#[cfg(tonbo_verif_full)]
+#[allow(dead_code)]
+pub(super) fn verif_key_split(predicate: &Expr, key_schema: &SchemaRef) -> (Expr, Option<Expr>) {
+    split_predicate_by_key(predicate, key_schema)
+}
+
+#[cfg(tonbo_verif_full)]
+#[allow(dead_code)]
+pub(super) fn verif_memory_split(
+    predicate: &Expr,
+    key_schema: &SchemaRef,
+) -> (Option<Expr>, Option<Expr>) {
+    let split = split_predicate_for_non_sst(predicate, key_schema);
+    (split.pushdown, split.residual)
+}
+
 #[derive(Debug)]
 struct NonSstPredicateSplit {
     pushdown: Option<Expr>,
diff --git a/src/db/verif.rs b/src/db/verif.rs
index af585a2..770ed62 100644
--- a/src/db/verif.rs
+++ b/src/db/verif.rs
@@ -18,6 +18,22 @@ use crate::{
     ondisk::sstable::{SsTableDescriptor, SsTableError, SsTableId},
 };
 
+/// Key conditions of a predicate and the rest, as the planner separates them.
+pub(crate) fn key_split(
+    predicate: &crate::query::Expr,
+    key_schema: &arrow_schema::SchemaRef,
+) -> (crate::query::Expr, Option<crate::query::Expr>) {
+    super::scan::verif_key_split(predicate, key_schema)
+}
+
+/// Part of a predicate that the key range decides for memtables, and the rest.
+pub(crate) fn memory_split(
+    predicate: &crate::query::Expr,
+    key_schema: &arrow_schema::SchemaRef,
+) -> (Option<crate::query::Expr>, Option<crate::query::Expr>) {
+    super::scan::verif_memory_split(predicate, key_schema)
+}
+
 impl<FS, E> DB<FS, E>
 where
     FS: ManifestFs<E>,
diff --git a/src/query/scan.rs b/src/query/scan.rs
index bb50581..05cf150 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -720,6 +720,22 @@ fn next_scalar_char(current: char) -> Option<char> {
     }
     None
 }
+#[cfg(tonbo_verif)]
+#[allow(dead_code)]
+pub(crate) fn verif_scalar_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
+    scalar_to_key(value, key_type)
+}
+
+#[cfg(tonbo_verif)]
+#[allow(dead_code)]
+pub(crate) fn verif_extend_projection(
+    base_schema: &SchemaRef,
+    projection: &SchemaRef,
+    required: &BTreeSet<String>,
+) -> Result<SchemaRef, KeyExtractError> {
+    extend_projection_schema(base_schema, projection, required)
+}
+
 fn extend_projection_schema(
     base_schema: &SchemaRef,
     projection: &SchemaRef,
diff --git a/src/query/stream/package.rs b/src/query/stream/package.rs
index 4b1dd19..05d0148 100644
--- a/src/query/stream/package.rs
+++ b/src/query/stream/package.rs
@@ -674,6 +674,30 @@ fn convert_owned_cell(cell: &typed_arrow_dyn::DynCell) -> Result<ScalarValue, Re
     }
 }
 
+#[cfg(tonbo_verif)]
+#[allow(dead_code)]
+pub(crate) fn verif_compare(lhs: &ScalarValue, rhs: &ScalarValue) -> Option<std::cmp::Ordering> {
+    compare_scalar_values(lhs, rhs)
+}
+
+#[cfg(tonbo_verif)]
+#[allow(dead_code)]
+pub(crate) fn verif_cell(cell: &typed_arrow_dyn::DynCell) -> Result<ScalarValue, String> {
+    convert_owned_cell(cell).map_err(|e| e.to_string())
+}
+
+#[cfg(tonbo_verif_full)]
+#[allow(dead_code)]
+pub(crate) fn verif_matches(
+    schema: &SchemaRef,
+    predicate: &Expr,
+    row: &DynRow,
+) -> Result<bool, String> {
+    ResidualEvaluator::new(schema)
+        .matches_owned(predicate, row)
+        .map_err(|e| e.to_string())
+}
+
 #[cfg(all(test, feature = "tokio"))]
 mod tests {
     use std::sync::Arc;
diff --git a/src/verif.rs b/src/verif.rs
index c47e44c..b5bb99f 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -19,6 +19,8 @@ use futures::StreamExt;
 use parquet::arrow::async_reader::ParquetRecordBatchStreamBuilder;
 use typed_arrow_dyn::DynRow;
 
+#[cfg(tonbo_verif_full)]
+pub use crate::transaction::Snapshot;
 pub use crate::{
     compaction::planner::LeveledPlannerConfig,
     extractor::{KeyExtractError, KeyProjection},
@@ -33,11 +35,10 @@ pub use crate::{
         SsTable, SsTableCompression, SsTableConfig, SsTableDescriptor, SsTableError, SsTableId,
         SsTableStats,
     },
+    query::ScalarValue,
     schema::SchemaBuilder,
     wal::verif as wal,
 };
-#[cfg(tonbo_verif_full)]
-pub use crate::transaction::Snapshot;
 use crate::{
     compaction::{
         executor::CompactionOutcome,
@@ -47,11 +48,11 @@ use crate::{
     id::{FileId, FileIdGenerator},
     inmem::{
         immutable::{memtable::ImmutableMemTable, prune_segments},
-        policy::StatsProvider,
         mutable::{
             DynMem,
             memtable::{DynRowScan, DynRowScanEntry},
         },
+        policy::StatsProvider,
     },
     key::{KeyTsOwned, KeyTsViewRaw},
     manifest::{
@@ -65,10 +66,10 @@ use crate::{
         sstable::SsTableBuilder,
     },
     query::{
-        scan::{KeyBounds, RowSet, next_prefix_string},
+        scan::{KeyBounds, RowSet, next_prefix_string, verif_extend_projection, verif_scalar_key},
         stream::{
             Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, StreamEntry,
-            merge::MergeStream,
+            merge::MergeStream, package,
         },
     },
     transaction::TransactionScan,
@@ -283,9 +284,7 @@ impl Mem {
 
     /// Commit timestamp bounds.
     pub fn commit_ts_bounds(&self) -> Option<(u64, u64)> {
-        self.mem
-            .commit_ts_bounds()
-            .map(|(a, b)| (a.get(), b.get()))
+        self.mem.commit_ts_bounds().map(|(a, b)| (a.get(), b.get()))
     }
 
     /// Number of stored versions.
@@ -406,6 +405,74 @@ impl Bounds {
     }
 }
 
+/// Order of two literals as the row evaluator sees it.
+pub fn scalar_compare(lhs: &ScalarValue, rhs: &ScalarValue) -> Option<Ordering> {
+    package::verif_compare(lhs, rhs)
+}
+
+/// Value of a row's cell as the row evaluator sees it.
+pub fn cell_scalar(cell: &typed_arrow_dyn::DynCell) -> Result<ScalarValue, String> {
+    package::verif_cell(cell)
+}
+
+/// Literal as a key of the given column type.
+pub fn scalar_key(value: &ScalarValue, key_type: &arrow_schema::DataType) -> Option<KeyOwned> {
+    verif_scalar_key(value, key_type)
+}
+
+/// Projection widened by the given columns.
+pub fn extend_projection(
+    base: &SchemaRef,
+    projection: &SchemaRef,
+    required: &[String],
+) -> Result<SchemaRef, String> {
+    verif_extend_projection(base, projection, &required.iter().cloned().collect())
+        .map_err(|e| e.to_string())
+}
+
+/// Predicate handling of the read path.
+#[cfg(tonbo_verif_full)]
+pub mod predicate {
+    use super::*;
+    use crate::{ondisk::sstable::split_predicate_for_row_filter, query::Expr};
+
+    /// Row evaluator.
+    pub fn matches(schema: &SchemaRef, expr: &Expr, row: &DynRow) -> Result<bool, String> {
+        package::verif_matches(schema, expr, row)
+    }
+    /// Key bounds used for pruning.
+    pub fn bounds(expr: &Expr, key_schema: &SchemaRef) -> Option<Bounds> {
+        crate::query::scan::key_bounds_for_predicate(expr, key_schema).map(Bounds)
+    }
+    /// Key range used for memtable scans.
+    pub fn range(expr: &Expr, key_schema: &SchemaRef) -> Option<KeyRangeBounds> {
+        crate::query::scan::key_range_for_predicate(expr, key_schema)
+            .map(|range| (range.start, range.end))
+    }
+    /// Row filter part and the rest.
+    pub fn row_filter_split(expr: &Expr, schema: &SchemaRef) -> (Option<Expr>, Option<Expr>) {
+        let split = split_predicate_for_row_filter(expr, schema);
+        (split.pushdown, split.residual)
+    }
+    /// Key conditions and the rest.
+    pub fn key_split(expr: &Expr, key_schema: &SchemaRef) -> (Expr, Option<Expr>) {
+        crate::db::verif::key_split(expr, key_schema)
+    }
+    /// Part decided by the memtables' key range, and the rest.
+    pub fn memory_split(expr: &Expr, key_schema: &SchemaRef) -> (Option<Expr>, Option<Expr>) {
+        crate::db::verif::memory_split(expr, key_schema)
+    }
+    /// Projection plus the columns the predicate needs.
+    pub fn projection(
+        base: &SchemaRef,
+        projection: &SchemaRef,
+        expr: Option<&Expr>,
+    ) -> Result<SchemaRef, String> {
+        crate::query::scan::projection_with_predicate(base, projection, expr)
+            .map_err(|e| e.to_string())
+    }
+}
+
 /// Row set wrapper.
 #[derive(Clone, Debug, PartialEq)]
 pub struct Rows(RowSet);
@@ -532,7 +599,8 @@ pub async fn sst_write<E>(
 where
     E: Executor + Clone + 'static,
 {
-    let mut builder = SsTableBuilder::new(config, SsTableDescriptor::new(SsTableId::new(id), level));
+    let mut builder =
+        SsTableBuilder::new(config, SsTableDescriptor::new(SsTableId::new(id), level));
     for segment in segments {
         builder.add_immutable(segment.0.as_ref())?;
     }
@@ -662,7 +730,11 @@ where
             V::Row(row) => {
                 let key = row.key_ts().key().to_owned();
                 let ts = row.key_ts().timestamp().get();
-                out.push((key, ts, Some(row.into_row_owned().map_err(|e| e.to_string())?)));
+                out.push((
+                    key,
+                    ts,
+                    Some(row.into_row_owned().map_err(|e| e.to_string())?),
+                ));
             }
             V::Tombstone(key) => out.push((key.key().clone(), key.timestamp().get(), None)),
         }
@@ -1209,7 +1281,11 @@ pub fn plan(
         None => orchestrator::plan_from_version(&planner, &version),
     }?;
     let resolved = orchestrator::resolve_inputs(&version, &task)
-        .map(|d| d.iter().map(|d| (d.level(), Sst::from_descriptor(d))).collect())
+        .map(|d| {
+            d.iter()
+                .map(|d| (d.level(), Sst::from_descriptor(d)))
+                .collect()
+        })
         .map_err(|e| e.to_string());
     Some((
         Task {
-- 
2.43.0


From 7ca6b9b9c32bb1d94275485da424c89d6bc28416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 35/38] fix: compare text and byte literals with columns of
 other encodings

A predicate literal of another text or byte type than its column (Utf8 against
a LargeUtf8 column, say) matched nothing instead of comparing values.
---
 src/query/stream/package.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/query/stream/package.rs b/src/query/stream/package.rs
index 05d0148..de5adfc 100644
--- a/src/query/stream/package.rs
+++ b/src/query/stream/package.rs
@@ -481,9 +481,34 @@ fn compare_scalar_values(lhs: &ScalarValue, rhs: &ScalarValue) -> Option<std::cm
     if lhs.data_type() == rhs.data_type() {
         return lhs.partial_cmp(rhs);
     }
+    if let (Some(lhs), Some(rhs)) = (text_value(lhs), text_value(rhs)) {
+        return Some(lhs.cmp(rhs));
+    }
+    if let (Some(lhs), Some(rhs)) = (bytes_value(lhs), bytes_value(rhs)) {
+        return Some(lhs.cmp(rhs));
+    }
     numeric_compare(lhs, rhs)
 }
 
+fn text_value(value: &ScalarValue) -> Option<&str> {
+    match value {
+        ScalarValue::Utf8(Some(v))
+        | ScalarValue::LargeUtf8(Some(v))
+        | ScalarValue::Utf8View(Some(v)) => Some(v),
+        _ => None,
+    }
+}
+
+fn bytes_value(value: &ScalarValue) -> Option<&[u8]> {
+    match value {
+        ScalarValue::Binary(Some(v))
+        | ScalarValue::LargeBinary(Some(v))
+        | ScalarValue::BinaryView(Some(v))
+        | ScalarValue::FixedSizeBinary(_, Some(v)) => Some(v),
+        _ => None,
+    }
+}
+
 fn numeric_compare(lhs: &ScalarValue, rhs: &ScalarValue) -> Option<std::cmp::Ordering> {
     let lhs_is_float = is_float_scalar(lhs);
     let rhs_is_float = is_float_scalar(rhs);
-- 
2.43.0


From e0b3bfc1f97971ec085c17d5cdd1a945c362ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 36/38] fix: do not turn float literals into key bounds keys
 cannot tell apart

Keys treat both zeros, and all NaNs, as equal while predicates order them, so
the answer to a predicate on a float key depended on where the row was stored.
---
 src/query/scan.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/query/scan.rs b/src/query/scan.rs
index 05cf150..6b9e54f 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -535,15 +535,20 @@ fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
             }
         },
         DataType::Float32 => match value {
-            ScalarValue::Float32(Some(value)) => Some(KeyOwned::from(*value)),
+            ScalarValue::Float32(Some(value)) if key_order_is_total(f64::from(*value)) => {
+                Some(KeyOwned::from(*value))
+            }
+            _ => None,
+        },
+        DataType::Float64 => match value {
+            ScalarValue::Float64(Some(value)) if key_order_is_total(*value) => {
+                Some(KeyOwned::from(*value))
+            }
             _ => None,
         },
         DataType::Boolean if matches!(value, ScalarValue::Boolean(_)) => {
             KeyOwned::from_scalar(value)
         }
-        DataType::Float64 if matches!(value, ScalarValue::Float32(_) | ScalarValue::Float64(_)) => {
-            KeyOwned::from_scalar(value)
-        }
         DataType::Utf8 | DataType::LargeUtf8 | DataType::Utf8View
             if matches!(
                 value,
@@ -570,6 +575,12 @@ fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
     }
 }
 
+/// Whether keys compare with `value` the way predicates do. Predicates tell the two zeros apart and
+/// NaNs with different signs, keys do not.
+fn key_order_is_total(value: f64) -> bool {
+    value != 0.0 && !value.is_nan()
+}
+
 pub(crate) fn bounds_from_expr(
     expr: &Expr,
     key_column: &str,
-- 
2.43.0


From b32191c215f42a4f7fff948a4a407d9f30d69015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 37/38] fix: compare temporal columns with literals of their
 type

Row cells of date, time and timestamp columns are bare integers, which compared
with no temporal literal: such a predicate dropped every row.
---
 src/query/stream/package.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/query/stream/package.rs b/src/query/stream/package.rs
index de5adfc..a3e70fb 100644
--- a/src/query/stream/package.rs
+++ b/src/query/stream/package.rs
@@ -280,6 +280,7 @@ impl TriState {
 
 struct ResidualEvaluator {
     column_map: HashMap<Arc<str>, usize>,
+    schema: SchemaRef,
 }
 
 impl ResidualEvaluator {
@@ -290,7 +291,10 @@ impl ResidualEvaluator {
             .enumerate()
             .map(|(idx, field)| (Arc::<str>::from(field.name().as_str()), idx))
             .collect();
-        Self { column_map }
+        Self {
+            column_map,
+            schema: Arc::clone(schema),
+        }
     }
 
     fn matches_owned(&self, predicate: &Expr, row: &DynRow) -> Result<bool, ResidualError> {
@@ -359,7 +363,7 @@ impl ResidualEvaluator {
         if lhs.is_null() || value.is_null() {
             return Ok(TriState::Unknown);
         }
-        let ordering = compare_scalar_values(&lhs, value);
+        let ordering = self.compare_cell(column, &lhs, value);
         let result = match op {
             CmpOp::Eq => ordering.map(|ord| ord == std::cmp::Ordering::Equal),
             CmpOp::NotEq => ordering.map(|ord| ord != std::cmp::Ordering::Equal),
@@ -404,7 +408,7 @@ impl ResidualEvaluator {
                 saw_null = true;
                 continue;
             }
-            if let Some(ordering) = compare_scalar_values(&lhs, value) {
+            if let Some(ordering) = self.compare_cell(column, &lhs, value) {
                 if ordering == std::cmp::Ordering::Equal {
                     return Ok(TriState::True);
                 }
@@ -456,6 +460,22 @@ impl ResidualEvaluator {
         }))
     }
 
+    fn compare_cell(
+        &self,
+        column: &str,
+        cell: &ScalarValue,
+        literal: &ScalarValue,
+    ) -> Option<std::cmp::Ordering> {
+        compare_scalar_values(cell, literal).or_else(|| {
+            // Cells of temporal columns are bare integers.
+            let data_type = self.schema.field(*self.column_map.get(column)?).data_type();
+            if literal.data_type() != *data_type {
+                return None;
+            }
+            cell.cast_to(data_type).ok()?.partial_cmp(literal)
+        })
+    }
+
     fn resolve_column(
         &self,
         column: &str,
-- 
2.43.0


From a250ecfc9e2bb28c9559d9794620c0e7e130976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 38/38] fix: evaluate predicates on float keys after versions
 are merged

Versions of one float key need not hold the same value (0.0 and -0.0 are one
key), so a table could return a replaced version that alone matched.
---
 src/db/scan.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index ec8dbaa..372f7b0 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -1280,10 +1280,13 @@ fn split_predicate_by_key(predicate: &Expr, key_schema: &SchemaRef) -> (Expr, Op
         }
         let mut columns = BTreeSet::new();
         collect_predicate_columns(conjunct, &mut columns);
-        if columns
-            .iter()
-            .all(|column| key_schema.field_with_name(column).is_ok())
-        {
+        // Versions of one float key need not hold the same value: keys treat both zeros, and all
+        // NaNs, as equal.
+        if columns.iter().all(|column| {
+            key_schema
+                .field_with_name(column)
+                .is_ok_and(|field| !field.data_type().is_floating())
+        }) {
             on_key.push(conjunct.clone());
         } else {
             rest.push(conjunct.clone());
-- 
2.43.0

