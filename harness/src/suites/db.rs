#![cfg(feature = "full")]
//! The whole database against a reference multi-version store.

use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
    time::Duration,
};

use arrow_array::RecordBatch;
use fusio::executor::Timer;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::{
    db::{DB, Transaction, WalSyncPolicy},
    verif as v,
};

use crate::{
    ensure,
    model::*,
    runner::{Gen, Obs, TestResult},
    sim::{Fault, SimExec, SimFs, block_on},
    suites::pred::{Query, query},
};

pub type Db = DB<SimFs, SimExec>;
pub type Txn = Transaction<SimFs, SimExec>;
pub type Snap = v::Snapshot;

// ---------------------------------------------------------------------------------------------
// Histories
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Rows (key, value, delete) in one batch.
    Write(Vec<(u8, u32, bool)>),
    Begin(u8),
    Put(u8, u8, u32),
    Del(u8, u8),
    Get(u8, u8),
    TxScan(u8, Query),
    Commit(u8),
    Abort(u8),
    Seal,
    Flush,
    /// Level-0 trigger and output row cap.
    Compact(u8, Option<u8>),
    Reopen(bool),
    Snap(u8),
    SnapScan(u8, Query),
    Scan(Query),
    /// Read at the timestamp of a snapshot taken earlier (counted from the newest).
    At(u8, Query),
    /// Read at the timestamp of the newest listed version right after it was published (strict
    /// only).
    AtNewest,
    /// The list of versions, at most this many.
    Versions(u8),
    /// A batch that must be rejected: 0 wrong schema, 1 null key, 2 bitmap length.
    Reject(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Knobs {
    pub segment_bytes: usize,
    pub seal_bytes: Option<u16>,
    pub seal_batches: Option<u8>,
    pub capacity: Option<u8>,
    /// Flush automatically when this many segments are sealed.
    pub minor: Option<u8>,
    pub fast_ack: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DbCase {
    spec: Spec,
    knobs: Knobs,
    ops: Vec<Op>,
    /// Fault armed before the operation with this number, that many file operations later.
    fault: Option<(u8, u8, Fault)>,
    /// A second fault, during the recovery from the first.
    again: Option<(u8, Fault)>,
    /// Also check what the open findings exclude.
    #[serde(default)]
    strict: bool,
}

pub fn knobs() -> impl Strategy<Value = Knobs> {
    (
        prop_oneof![2 => Just(1usize), 4 => 200usize..1500, 2 => Just(1usize << 20)],
        prop::option::weighted(0.3, 1u16..400),
        prop::option::weighted(0.3, 1u8..4),
        prop::option::weighted(0.3, 1u8..5),
        prop::option::weighted(0.3, 1u8..4),
    )
        .prop_map(|(segment_bytes, seal_bytes, seal_batches, capacity, minor)| Knobs {
            segment_bytes,
            seal_bytes,
            seal_batches,
            capacity,
            minor,
            fast_ack: false,
        })
}

pub fn rows() -> impl Strategy<Value = Vec<(u8, u32, bool)>> {
    prop::collection::vec((0u8..8, 0u32..64, prop::bool::weighted(0.25)), 1..5)
}

fn op(w: [u32; 6]) -> BoxedStrategy<Op> {
    let [write, maint, reopen, snap, txn, scan] = w;
    let all: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (write * 10, rows().prop_map(Op::Write).boxed()),
        (write, (0u8..3).prop_map(Op::Reject).boxed()),
        (maint * 3, Just(Op::Seal).boxed()),
        (maint * 4, Just(Op::Flush).boxed()),
        (
            maint * 2,
            (0u8..12, prop::option::of(1u8..6)).prop_map(|(t, r)| Op::Compact(t, r)).boxed(),
        ),
        (reopen * 2, any::<bool>().prop_map(Op::Reopen).boxed()),
        (snap * 2, (0u8..2).prop_map(Op::Snap).boxed()),
        (snap * 3, (0u8..2, small_query()).prop_map(|(s, q)| Op::SnapScan(s, q)).boxed()),
        (snap * 2, (0u8..4, small_query()).prop_map(|(n, q)| Op::At(n, q)).boxed()),
        (snap.max(scan) , (0u8..5).prop_map(Op::Versions).boxed()),
        (txn * 3, (0u8..3).prop_map(Op::Begin).boxed()),
        (txn * 6, (0u8..3, 0u8..8, 0u32..64).prop_map(|(t, k, v)| Op::Put(t, k, v)).boxed()),
        (txn * 3, (0u8..3, 0u8..8).prop_map(|(t, k)| Op::Del(t, k)).boxed()),
        (txn * 2, (0u8..3, 0u8..8).prop_map(|(t, k)| Op::Get(t, k)).boxed()),
        (txn * 2, (0u8..3, small_query()).prop_map(|(t, q)| Op::TxScan(t, q)).boxed()),
        (txn * 4, (0u8..3).prop_map(Op::Commit).boxed()),
        (txn, (0u8..3).prop_map(Op::Abort).boxed()),
        (scan * 6, query().prop_map(Op::Scan).boxed()),
    ];
    prop::strategy::Union::new_weighted(all.into_iter().filter(|(w, _)| *w > 0).collect()).boxed()
}

fn small_query() -> impl Strategy<Value = Query> {
    prop_oneof![3 => Just(Query::default()), 1 => query()]
}

fn history(w: [u32; 6], len: std::ops::Range<usize>) -> impl Strategy<Value = DbCase> {
    (db_spec(), knobs(), prop::collection::vec(op(w), len)).prop_map(|(spec, knobs, ops)| DbCase {
        spec,
        knobs,
        ops,
        fault: None,
        again: None,
        strict: false,
    })
}

pub fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        4 => (0u16..=256).prop_map(|keep| Fault::Crash { keep }),
        1 => Just(Fault::Fail),
        1 => (0u16..=256).prop_map(|keep| Fault::FailPartial { keep }),
    ]
}

// ---------------------------------------------------------------------------------------------
// Interpreter
// ---------------------------------------------------------------------------------------------

struct OpenTxn {
    txn: Txn,
    read_ts: u64,
    staged: BTreeMap<Key, Option<Row>>,
}

struct World<'a> {
    spec: &'a Spec,
    knobs: &'a Knobs,
    fs: SimFs,
    db: Option<Db>,
    model: Mvcc,
    /// Units since the first one whose outcome is open (failed with an error after a fault), in
    /// order, with whether they were acknowledged.
    pending: Vec<(Vec<(Key, Option<Row>)>, bool)>,
    clock: u64,
    next_id: u64,
    txns: BTreeMap<u8, OpenTxn>,
    snaps: BTreeMap<u8, (Snap, u64)>,
    /// Read timestamps of the snapshots taken since the last compaction, with the model's clock.
    marks: Vec<(u64, u64)>,
    strict: bool,
    flushes: u64,
    compactions: u64,
    reopens: u64,
}

const ROOT: &str = "/tmp";

pub async fn open(fs: &SimFs, spec: &Spec, knobs: &Knobs) -> Result<Db, String> {
    let minor = knobs.minor.map_or(1_000_000, |m| m as usize);
    let mut db = Db::builder(spec.config())
        .on_durable_fs(Arc::new(fs.clone()), ROOT)
        .map_err(|e| e.to_string())?
        .wal_sync_policy(WalSyncPolicy::Always)
        .wal_segment_bytes(knobs.segment_bytes)
        .with_minor_compaction(minor, 0)
        .open_with_executor(Arc::new(SimExec))
        .await
        .map_err(|e| format!("opening the database failed: {e}"))?;
    let mut rules: Vec<Arc<dyn v::SealPolicy + Send + Sync>> = Vec::new();
    if let Some(bytes) = knobs.seal_bytes {
        rules.push(Arc::new(v::BytesThreshold { limit: bytes as usize }));
    }
    if let Some(batches) = knobs.seal_batches {
        rules.push(Arc::new(v::BatchesThreshold { batches: batches as usize }));
    }
    let ok = db.verif_configure(Arc::new(v::AnyOf::new(rules)), knobs.capacity.map(|c| c as usize));
    ensure!(ok, "database handle is shared right after opening");
    Ok(db)
}

/// Compaction settings: when to start, how many tables to take, whether to go below level 1.
pub fn planner(n: u8) -> v::LeveledPlannerConfig {
    let n = n as usize;
    let deep = n / 6 % 2 == 1;
    v::LeveledPlannerConfig {
        l0_trigger: 1 + n % 2,
        l0_max_inputs: [6, 1, 2][n / 2 % 3],
        level_thresholds: if deep { vec![0, 1, 2] } else { vec![10, 12, 14] },
        max_inputs_per_task: if deep { 1 + n % 2 * 9 } else { 10 },
        ..Default::default()
    }
}

pub fn collect_rows(batches: &[RecordBatch]) -> Vec<Row> {
    batches.iter().flat_map(batch_rows).collect()
}

macro_rules! run_query {
    ($builder:expr, $query:expr, $spec:expr) => {{
        let mut b = $builder;
        if let Some(p) = &$query.pred {
            b = b.filter(p.resolve($spec).expr());
        }
        if let Some(cols) = $query.columns($spec) {
            b = b.projection($spec.projected(&cols));
        }
        if let Some(l) = $query.limit {
            b = b.limit(l as usize);
        }
        b.collect().await.map_err(|e| format!("scan failed: {e}"))
    }};
}

impl World<'_> {
    fn db(&self) -> Result<&Db, String> {
        self.db.as_ref().ok_or_else(|| "database is closed".to_string())
    }

    /// Apply a committed unit to the model.
    fn commit_model(&mut self, unit: &[(Key, Option<Row>)]) {
        self.clock += 1;
        for (k, r) in unit {
            self.model.put(k.clone(), self.clock, r.clone());
        }
    }

    fn live(&self, ts: u64) -> Vec<Row> {
        self.model.live(ts).into_iter().map(|(_, _, r)| r).collect()
    }

    /// A batch of distinct keys that every layer can hold, as rows and as model entries.
    fn unit(&self, rows: &[(u8, u32, bool)], obs: &mut Obs) -> Vec<(Row, Key, bool)> {
        let mut seen = BTreeSet::new();
        let mut out = Vec::new();
        for (k, val, del) in rows {
            let row = self.spec.row(*k, *val);
            let key = self.spec.key_of(&row);
            if !persistable_key(self.spec, &key) {
                obs.excluded += 1;
                continue;
            }
            if seen.insert(key.clone()) {
                out.push((row, key, *del));
            }
        }
        out
    }

    async fn write(&mut self, rows: &[(u8, u32, bool)], obs: &mut Obs) -> Result<bool, String> {
        let unit = self.unit(rows, obs);
        if unit.is_empty() {
            return Ok(true);
        }
        let data: Vec<Row> = unit.iter().map(|u| u.0.clone()).collect();
        let dels: Vec<bool> = unit.iter().map(|u| u.2).collect();
        let entries: Vec<(Key, Option<Row>)> = unit
            .into_iter()
            .map(|(row, key, del)| (key, (!del).then_some(row)))
            .collect();
        let batch = if rows.len() % 2 == 0 {
            self.spec.batch(&data)
        } else {
            self.spec.sliced_batch(&data)
        };
        let db = self.db()?;
        let result = if dels.iter().any(|d| *d) {
            obs.class("batch with deletes");
            db.ingest_with_tombstones(batch, dels).await
        } else {
            db.ingest(batch).await
        };
        self.settle(entries, result.map_err(|e| e.to_string()))
    }

    /// Record the outcome of a write: acknowledged, or unknown after an injected fault.
    fn settle(
        &mut self,
        entries: Vec<(Key, Option<Row>)>,
        result: Result<(), String>,
    ) -> Result<bool, String> {
        match result {
            Ok(()) => {
                if self.pending.is_empty() {
                    self.commit_model(&entries);
                } else {
                    self.pending.push((entries, true));
                }
                Ok(true)
            }
            Err(e) => {
                ensure!(self.faulty(), "write failed without a fault: {e}");
                self.pending.push((entries, false));
                Ok(false)
            }
        }
    }

    fn faulty(&self) -> bool {
        self.fs.faults_fired() > 0
    }

    fn check_scan(&self, got: &[Row], ts: u64, query: &Query, what: &str, obs: &mut Obs) -> TestResult {
        let want = query.apply(self.spec, &self.live(ts));
        obs.check();
        compare_rows(got, &want, &format!("{what} {query:?}"))
    }

    async fn full_scan(&self, obs: &mut Obs) -> TestResult {
        let q = Query::default();
        let got = collect_rows(&run_query!(self.db()?.scan(), q, self.spec)?);
        self.check_scan(&got, self.clock, &q, "full scan", obs)
    }

    async fn reopen(&mut self, clean: bool) -> TestResult {
        self.txns.clear();
        self.snaps.clear();
        if let Some(db) = self.db.take() {
            if clean {
                db.verif_shutdown().await?;
            } else {
                drop(db);
                self.fs.kill();
            }
        }
        self.fs = self.fs.restart();
        self.reopens += 1;
        self.db = Some(open(&self.fs, self.spec, self.knobs).await?);
        Ok(())
    }

    /// Run one operation. `Ok(false)`: an injected fault made it fail.
    async fn step(&mut self, op: &Op, obs: &mut Obs) -> Result<bool, String> {
        let spec = self.spec;
        match op {
            Op::Write(rows) => {
                let before = self.db()?.verif_immutables();
                let ok = self.write(rows, obs).await?;
                let after = self.db()?.verif_immutables();
                obs.class_if(after > before, "sealed by a write");
                if self.knobs.minor.is_some() && after < before.max(1) {
                    self.flushes += 1;
                }
                Ok(ok)
            }
            Op::Begin(slot) => {
                let txn = self.db()?.begin_transaction().await;
                match txn {
                    Ok(txn) => {
                        self.txns.insert(
                            *slot,
                            OpenTxn { txn, read_ts: self.clock, staged: BTreeMap::new() },
                        );
                        Ok(true)
                    }
                    Err(e) => {
                        ensure!(self.faulty(), "begin failed: {e}");
                        Ok(false)
                    }
                }
            }
            Op::Put(slot, k, val) => {
                let row = spec.row(*k, *val);
                let key = spec.key_of(&row);
                if let Some(t) = self.txns.get_mut(slot)
                    && persistable_key(spec, &key)
                {
                    t.txn.upsert(dyn_row(spec, &row)).map_err(|e| format!("upsert: {e}"))?;
                    t.staged.insert(key, Some(row));
                }
                Ok(true)
            }
            Op::Del(slot, k) => {
                let key = spec.key(*k);
                if let Some(t) = self.txns.get_mut(slot)
                    && persistable_key(spec, &key)
                {
                    t.txn.delete(owned_key(spec, &key)).map_err(|e| format!("delete: {e}"))?;
                    t.staged.insert(key, None);
                }
                Ok(true)
            }
            Op::Get(slot, k) => {
                let key = spec.key(*k);
                if let Some(t) = self.txns.get(slot)
                    && persistable_key(spec, &key)
                {
                    let got = t.txn.get(&owned_key(spec, &key)).await;
                    let got = match got {
                        Ok(g) => g.map(|r| row_vals(&r)),
                        Err(e) => {
                            ensure!(self.faulty(), "get failed: {e}");
                            return Ok(false);
                        }
                    };
                    let want = match t.staged.get(&key) {
                        Some(staged) => staged.clone(),
                        None => {
                            self.model
                                .live(t.read_ts)
                                .into_iter()
                                .find(|(k, _, _)| *k == key)
                                .map(|(_, _, r)| r)
                        }
                    };
                    obs.check();
                    obs.class("point read");
                    let (g, w): (Vec<Row>, Vec<Row>) =
                        (got.into_iter().collect(), want.into_iter().collect());
                    compare_rows(&g, &w, &format!("get {key:?} in transaction"))?;
                }
                Ok(true)
            }
            Op::TxScan(slot, q) => {
                if let Some(t) = self.txns.get(slot) {
                    let got = run_query!(t.txn.scan(), q, spec);
                    let got = match got {
                        Ok(g) => collect_rows(&g),
                        Err(e) => {
                            ensure!(self.faulty(), "transaction: {e}");
                            return Ok(false);
                        }
                    };
                    let mut view: BTreeMap<Key, Row> = self
                        .model
                        .live(t.read_ts)
                        .into_iter()
                        .map(|(k, _, r)| (k, r))
                        .collect();
                    for (k, r) in &t.staged {
                        match r {
                            Some(r) => view.insert(k.clone(), r.clone()),
                            None => view.remove(k),
                        };
                    }
                    let rows: Vec<Row> = view.into_values().collect();
                    obs.check();
                    obs.class_if(!t.staged.is_empty(), "scan over staged writes");
                    compare_rows(&got, &q.apply(spec, &rows), &format!("transaction scan {q:?}"))?;
                }
                Ok(true)
            }
            Op::Commit(slot) => {
                let Some(t) = self.txns.remove(slot) else {
                    return Ok(true);
                };
                let conflict = t
                    .staged
                    .keys()
                    .any(|k| self.model.newest(k).is_some_and(|n| n > t.read_ts));
                let entries: Vec<_> = t.staged.into_iter().collect();
                let empty = entries.is_empty();
                match t.txn.commit().await {
                    Ok(()) => {
                        ensure!(!conflict, "conflicting transaction committed: {entries:?}");
                        if !empty {
                            obs.class("transaction committed");
                            self.settle(entries, Ok(()))?;
                        }
                        Ok(true)
                    }
                    Err(e) => {
                        let text = e.to_string();
                        if format!("{e:?}").starts_with("WriteConflict") {
                            ensure!(conflict, "transaction rejected without a conflict: {text}");
                            obs.class("conflict rejected");
                            Ok(true)
                        } else {
                            self.settle(entries, Err(text))
                        }
                    }
                }
            }
            Op::Abort(slot) => {
                if let Some(t) = self.txns.remove(slot) {
                    obs.class_if(!t.staged.is_empty(), "transaction rolled back");
                    t.txn.abort();
                }
                Ok(true)
            }
            Op::Seal => {
                self.db()?.verif_seal()?;
                Ok(true)
            }
            Op::Flush => {
                self.next_id += 1_000_000;
                match self.db()?.verif_flush(self.next_id).await {
                    Ok(done) => {
                        if done {
                            self.flushes += 1;
                        }
                        Ok(true)
                    }
                    Err(e) => {
                        ensure!(self.faulty(), "flush failed: {e}");
                        // It may have been published before the error.
                        self.flushes += 1;
                        Ok(false)
                    }
                }
            }
            Op::Compact(trigger, max_rows) => {
                self.next_id += 1_000_000;
                let planner = planner(*trigger);
                match self
                    .db()?
                    .verif_compact(planner, self.next_id, max_rows.map(|r| r as usize))
                    .await
                {
                    Ok(done) => {
                        self.compactions += done as u64;
                        if done {
                            // Compaction keeps only the newest versions.
                            self.marks.clear();
                        }
                        Ok(true)
                    }
                    Err(e) => {
                        ensure!(self.faulty(), "compaction failed: {e}");
                        Ok(false)
                    }
                }
            }
            Op::Reopen(clean) => {
                match self.reopen(*clean).await {
                    Ok(()) => Ok(true),
                    Err(_) if self.faulty() => Ok(false),
                    Err(e) => Err(e),
                }
            }
            Op::Snap(slot) => {
                match self.db()?.begin_snapshot().await {
                    Ok(s) => {
                        let ts = Db::verif_read_ts(&s);
                        if self.marks.last().is_none_or(|m| m.0 != ts) {
                            self.marks.push((ts, self.clock));
                        }
                        self.snaps.insert(*slot, (s, self.clock));
                        Ok(true)
                    }
                    Err(e) => {
                        ensure!(self.faulty(), "snapshot failed: {e}");
                        Ok(false)
                    }
                }
            }
            Op::SnapScan(slot, q) => {
                if let Some((snap, ts)) = self.snaps.get(slot) {
                    match run_query!(snap.scan(self.db()?), q, spec) {
                        Ok(got) => {
                            obs.class_if(*ts < self.clock, "read in the past");
                            self.check_scan(&collect_rows(&got), *ts, q, "snapshot scan", obs)?;
                        }
                        Err(e) => {
                            ensure!(self.faulty(), "snapshot {e}");
                            return Ok(false);
                        }
                    }
                }
                Ok(true)
            }
            Op::At(n, q) => {
                let Some((ts, model)) = self.marks.iter().rev().nth(*n as usize).copied() else {
                    return Ok(true);
                };
                let newest = match self.db()?.list_versions(1).await {
                    Ok(v) => v.first().map_or(0, |v| v.timestamp.get()),
                    Err(e) => {
                        ensure!(self.faulty(), "list_versions failed: {e}");
                        return Ok(false);
                    }
                };
                // Versions carry the catalog's own commit counter (KF-snapshot-at).
                if newest > ts && !self.strict {
                    obs.excluded += 1;
                    return Ok(true);
                }
                let snap = match self.db()?.verif_snapshot_at(ts).await {
                    Ok(s) => s,
                    Err(e) => {
                        ensure!(self.faulty(), "snapshot_at failed: {e}");
                        return Ok(false);
                    }
                };
                match run_query!(snap.scan(self.db()?), q, spec) {
                    Ok(got) => {
                        obs.class_if(model < self.clock, "time travel");
                        self.check_scan(&collect_rows(&got), model, q, "snapshot_at scan", obs)?;
                    }
                    Err(e) => {
                        ensure!(self.faulty(), "snapshot_at {e}");
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            Op::AtNewest => {
                let newest = self.db()?.list_versions(1).await.map_err(|e| e.to_string())?;
                if let (true, Some(v)) = (self.strict, newest.first()) {
                    let snap = self.db()?.snapshot_at(v.timestamp).await.map_err(|e| e.to_string())?;
                    let q = Query::default();
                    let got = run_query!(snap.scan(self.db()?), q, spec)?;
                    self.check_scan(&collect_rows(&got), self.clock, &q, "newest version", obs)?;
                }
                Ok(true)
            }
            Op::Versions(limit) => {
                let db = self.db()?;
                let all = db.list_versions(0).await;
                let some = db.list_versions(*limit as usize).await;
                let levels = db.verif_levels().await;
                let (Ok(all), Ok(some), Ok(levels)) = (all, some, levels) else {
                    ensure!(self.faulty(), "list_versions failed");
                    return Ok(false);
                };
                obs.check();
                let ts: Vec<u64> = all.iter().map(|v| v.timestamp.get()).collect();
                ensure!(ts.windows(2).all(|w| w[0] > w[1]), "versions not newest first: {ts:?}");
                let want = if *limit == 0 { all.len() } else { all.len().min(*limit as usize) };
                ensure!(some.len() == want, "list_versions({limit}) of {}: {}", all.len(), some.len());
                for (a, b) in all.iter().zip(&some) {
                    ensure!(
                        (a.timestamp, a.sst_count, a.sst_bytes, a.level_count)
                            == (b.timestamp, b.sst_count, b.sst_bytes, b.level_count),
                        "limited version list differs: {a:?} {b:?}"
                    );
                }
                if let Some(v) = all.first() {
                    let tables: usize = levels.iter().map(Vec::len).sum();
                    let used = levels.iter().filter(|l| !l.is_empty()).count();
                    ensure!(
                        (v.sst_count, v.level_count) == (tables, used),
                        "newest version {v:?} but levels {levels:?}"
                    );
                    ensure!((v.sst_bytes > 0) == (tables > 0), "sizes: {v:?} for {tables} tables");
                    obs.class_if(tables > 1, "several tables");
                }
                Ok(true)
            }
            Op::Scan(q) => match run_query!(self.db()?.scan(), q, spec) {
                Ok(got) => {
                    let got = collect_rows(&got);
                    obs.class_if(q.pred.is_some() && !got.is_empty(), "filter kept rows");
                    self.check_scan(&got, self.clock, q, "scan", obs)?;
                    Ok(true)
                }
                Err(e) => {
                    ensure!(self.faulty(), "{e}");
                    Ok(false)
                }
            },
            Op::Reject(kind) => {
                let result = match kind {
                    0 => {
                        let schema = Arc::new(arrow_schema::Schema::new(vec![
                            arrow_schema::Field::new("other", arrow_schema::DataType::Int8, true),
                        ]));
                        self.db()?.ingest(RecordBatch::new_empty(schema)).await
                    }
                    1 if spec.cols[spec.keys[0]].nullable => {
                        let mut row = spec.row(0, 1);
                        row[spec.keys[0]] = Val::Null;
                        let good = spec.row(1, 2);
                        self.db()?.ingest(spec.batch(&[good, row])).await
                    }
                    _ => {
                        let batch = spec.batch(&[spec.row(0, 1)]);
                        self.db()?.ingest_with_tombstones(batch, vec![false, false]).await
                    }
                };
                obs.class("batch rejected");
                ensure!(result.is_err(), "invalid batch {kind} was accepted");
                Ok(true)
            }
        }
    }
}

impl World<'_> {
    /// After a fault: the process dies (if it has not yet) and is started again. Every
    /// acknowledged unit must be there, every open unit entirely or not at all.
    async fn recover(&mut self, again: &Option<(u8, Fault)>, obs: &mut Obs) -> TestResult {
        self.txns.clear();
        self.snaps.clear();
        self.db = None;
        self.fs.kill();
        self.fs = self.fs.restart();
        // Leases of the dead process run out.
        SimExec.sleep(Duration::from_secs(61)).await;
        if let Some((after, fault)) = again {
            self.fs.arm(*after as u64, *fault);
            match open(&self.fs, self.spec, self.knobs).await {
                Ok(db) => self.db = Some(db),
                Err(e) => ensure!(self.faulty(), "recovery failed: {e}"),
            }
            if self.faulty() {
                obs.class("fault during recovery");
                self.db = None;
                self.fs.kill();
                self.fs = self.fs.restart();
                SimExec.sleep(Duration::from_secs(61)).await;
            } else {
                self.fs.disarm();
            }
        }
        if self.db.is_none() {
            self.db = Some(
                open(&self.fs, self.spec, self.knobs)
                    .await
                    .map_err(|e| format!("recovery failed: {e}"))?,
            );
        }
        self.reopens += 1;
        let got = collect_rows(&run_query!(self.db()?.scan(), Query::default(), self.spec)?);
        let open_units: Vec<usize> = (0..self.pending.len()).filter(|i| !self.pending[*i].1).collect();
        ensure!(open_units.len() <= 10, "harness: too many open units");
        let mut first = None;
        for mask in 0u32..1 << open_units.len() {
            let mut model = self.model.clone();
            let mut clock = self.clock;
            for (i, (unit, acked)) in self.pending.iter().enumerate() {
                let take = *acked
                    || open_units
                        .iter()
                        .position(|o| *o == i)
                        .is_some_and(|bit| mask >> bit & 1 == 1);
                if take {
                    clock += 1;
                    for (k, r) in unit {
                        model.put(k.clone(), clock, r.clone());
                    }
                }
            }
            let want: Vec<Row> = model.live(clock).into_iter().map(|(_, _, r)| r).collect();
            match compare_rows(&got, &want, "after recovery") {
                Ok(()) => {
                    obs.check();
                    obs.class_if(mask != 0, "unacknowledged unit survived");
                    obs.class_if(!self.pending.is_empty() && mask == 0, "unacknowledged unit gone");
                    self.model = model;
                    self.clock = clock;
                    self.pending.clear();
                    return Ok(());
                }
                Err(e) => {
                    first.get_or_insert(e);
                }
            }
        }
        Err(format!(
            "{} ({} unit(s) in doubt: {:?})",
            first.unwrap_or_default(),
            open_units.len(),
            self.pending
        ))
    }
}

async fn run(case: &DbCase, obs: &mut Obs) -> TestResult {
    let fs = SimFs::new();
    let mut w = World {
        spec: &case.spec,
        knobs: &case.knobs,
        db: Some(open(&fs, &case.spec, &case.knobs).await?),
        fs,
        model: Mvcc::default(),
        pending: Vec::new(),
        clock: 0,
        next_id: 0,
        txns: BTreeMap::new(),
        snaps: BTreeMap::new(),
        marks: Vec::new(),
        strict: case.strict,
        flushes: 0,
        compactions: 0,
        reopens: 0,
    };
    let mut again = case.again;
    let mut crashed = false;
    let mut degraded = 0;
    for (i, op) in case.ops.iter().enumerate() {
        if degraded > 0 {
            // After an error the process keeps trying to write for a while.
            if matches!(op, Op::Write(_)) && !w.fs.is_dead() {
                w.write_degraded(op, obs).await?;
            }
            degraded -= 1;
            if degraded == 0 {
                w.recover(&again.take(), obs).await.map_err(|e| format!("op {i}: {e}"))?;
            }
            continue;
        }
        if let Some((at, after, fault)) = &case.fault
            && *at as usize == i
        {
            w.fs.arm(*after as u64, *fault);
        }
        let ok = w.step(op, obs).await.map_err(|e| format!("op {i} {op:?}: {e}"))?;
        if !ok || w.fs.is_dead() {
            crashed = true;
            obs.class(match op {
                Op::Write(_) => "fault in a write",
                Op::Commit(_) => "fault in a commit",
                Op::Flush => "fault in a flush",
                Op::Compact(..) => "fault in a compaction",
                Op::Reopen(_) => "fault in a reopen",
                _ => "fault elsewhere",
            });
            if w.fs.is_dead() || w.db.is_none() {
                w.recover(&again.take(), obs).await.map_err(|e| format!("op {i}: {e}"))?;
            } else {
                degraded = 3;
            }
        }
    }
    if degraded > 0 {
        w.recover(&again.take(), obs).await.map_err(|e| format!("end: {e}"))?;
    }
    w.fs.disarm();
    w.full_scan(obs).await?;
    w.reopen(false).await.map_err(|e| format!("final reopen: {e}"))?;
    w.full_scan(obs).await.map_err(|e| format!("after the final restart: {e}"))?;
    // The recovered database takes writes that win over everything recovered.
    w.write(&[(0, 1, false), (1, 2, true), (2, 3, false)], obs).await?;
    w.full_scan(obs).await.map_err(|e| format!("after a write on the recovered database: {e}"))?;
    obs.class_if(w.flushes > 0, "flushed");
    obs.class_if(w.compactions > 0, "compacted");
    obs.class_if(w.reopens > 1, "reopened");
    obs.class_if(crashed, "crashed");
    obs.nontrivial = if case.fault.is_some() {
        crashed && w.model.len() > 0
    } else {
        w.model.len() > 2 && (w.flushes > 0 || w.reopens > 1)
    };
    Ok(())
}

fn test(case: &DbCase, obs: &mut Obs) -> TestResult {
    block_on(run(case, obs))
}

impl World<'_> {
    async fn write_degraded(&mut self, op: &Op, obs: &mut Obs) -> TestResult {
        if let Op::Write(rows) = op {
            self.write(rows, obs).await?;
        }
        Ok(())
    }
}

pub static HISTORY: Gen<DbCase> = Gen {
    name: "db_history",
    rule: "three or more versions, and a flush or a reopening in the history",
    strategy: || history([3, 1, 1, 0, 0, 1], 1..24).boxed(),
    test,
};

pub static QUERY: Gen<DbCase> = Gen {
    name: "db_query",
    rule: "three or more versions, and a flush or a reopening in the history",
    strategy: || history([2, 1, 0, 0, 0, 3], 4..24).boxed(),
    test,
};

pub static SNAPSHOT: Gen<DbCase> = Gen {
    name: "db_snapshot",
    rule: "three or more versions, and a flush or a reopening in the history",
    strategy: || history([2, 1, 0, 3, 0, 0], 4..24).boxed(),
    test,
};

/// Staged rows with list columns cannot be scanned (KF-staged-list).
fn no_lists(mut c: DbCase) -> DbCase {
    for col in &mut c.spec.cols {
        if col.ty == Ty::List {
            col.ty = Ty::Str;
        }
    }
    c
}

pub static TXN: Gen<DbCase> = Gen {
    name: "db_txn",
    rule: "three or more versions, and a flush or a reopening in the history",
    strategy: || {
        history([1, 1, 0, 0, 3, 0], 6..30)
            .prop_map(no_lists)
            .boxed()
    },
    test,
};

pub static CRASH: Gen<DbCase> = Gen {
    name: "db_crash",
    rule: "a fault hit an operation and at least one version is stored",
    strategy: || {
        (
            history([3, 1, 1, 0, 1, 0], 2..16),
            (0u8..16, 0u8..14, fault()),
            prop::option::weighted(0.3, (0u8..14, fault())),
        )
            .prop_map(|(c, fault, again)| {
                let mut c = no_lists(c);
                c.fault = Some((fault.0 % c.ops.len() as u8, fault.1, fault.2));
                c.again = again;
                c
            })
            .boxed()
    },
    test,
};

/// Histories that build many table files, compacted in pieces and more than one level deep.
pub static LAYERS: Gen<DbCase> = Gen {
    name: "db_layers",
    rule: "three or more versions, and a flush or a reopening in the history",
    strategy: || {
        let op = prop_oneof![
            10 => prop::collection::vec((0u8..6, 0u32..64, prop::bool::weighted(0.25)), 1..3)
                .prop_map(Op::Write),
            5 => (0u8..12, prop::option::of(1u8..6)).prop_map(|(t, r)| Op::Compact(t, r)),
            4 => query().prop_map(Op::Scan),
            1 => any::<bool>().prop_map(Op::Reopen),
            1 => (0u8..2).prop_map(Op::Snap),
            1 => (0u8..2, small_query()).prop_map(|(s, q)| Op::SnapScan(s, q)),
            1 => (0u8..5).prop_map(Op::Versions),
        ];
        (db_spec(), knobs(), prop::collection::vec(op, 8..40), 1u8..3)
            .prop_map(|(spec, knobs, ops, minor)| DbCase {
                spec,
                knobs: Knobs { minor: Some(minor), seal_batches: Some(1), ..knobs },
                ops,
                fault: None,
                again: None,
                strict: false,
            })
            .boxed()
    },
    test,
};

/// Replay only: reads at version timestamps (KF-snapshot-at).
pub static STRICT: Gen<DbCase> = Gen {
    name: "db_strict",
    rule: "any",
    strategy: || {
        history([2, 1, 0, 3, 2, 0], 3..16)
            .prop_map(|c| DbCase { strict: true, ..no_lists(c) })
            .boxed()
    },
    test,
};
