//! The write buffer and its sealed segments against the reference multi-version store.

use std::sync::Arc;

use arrow_array::{RecordBatch, UInt64Array};
use arrow_schema::{DataType, Field, Schema};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{self as v, Bounds, Imm, Mem};

use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// Batch with a different schema.
    Schema,
    /// Commit timestamp column of the wrong length.
    ShortTs,
    /// Commit timestamp column with a null.
    NullTs,
    /// Null key component (only possible with nullable key columns).
    NullKey,
    /// Delete batch without commit timestamps.
    DeleteSchema,
    /// Delete batch with a null key component.
    DeleteNullKey,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Put { rows: Vec<(u8, u32)>, ts: u64, sliced: bool },
    PutMvcc { rows: Vec<(u8, u32, u64)> },
    Del { keys: Vec<(u8, u64)> },
    Seal,
    Bad(Bad),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Probe {
    pub ts: u64,
    pub range: Option<Range>,
    pub cols: Option<Vec<u8>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub spec: Spec,
    pub capacity: Option<usize>,
    pub ops: Vec<Op>,
    pub probes: Vec<Probe>,
}

/// Timestamps are dense so that versions collide and order matters; extremes appear rarely.
pub fn ts() -> impl Strategy<Value = u64> {
    prop_oneof![30 => 1u64..12, 1 => Just(0u64), 1 => Just(u64::MAX), 1 => Just(u64::MAX - 1)]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        6 => (prop::collection::vec((0u8..9, 0u32..300), 1..5), ts(), any::<bool>())
            .prop_map(|(rows, ts, sliced)| Op::Put { rows, ts, sliced }),
        1 => ts().prop_map(|ts| Op::Put { rows: vec![], ts, sliced: false }),
        4 => prop::collection::vec((0u8..9, 0u32..300, ts()), 1..5).prop_map(|rows| Op::PutMvcc { rows }),
        5 => prop::collection::vec((0u8..9, ts()), 1..4).prop_map(|keys| Op::Del { keys }),
        2 => Just(Op::Seal),
        2 => prop_oneof![
            Just(Bad::Schema), Just(Bad::ShortTs), Just(Bad::NullTs), Just(Bad::NullKey),
            Just(Bad::DeleteSchema), Just(Bad::DeleteNullKey),
        ].prop_map(Op::Bad),
    ]
}

pub fn probe() -> impl Strategy<Value = Probe> {
    (
        prop_oneof![8 => 0u64..13, 1 => Just(u64::MAX), 1 => Just(u64::MAX - 1)],
        prop::option::weighted(0.7, range()),
        prop::option::weighted(0.4, prop::collection::vec(any::<u8>(), 1..4)),
    )
        .prop_map(|(ts, range, cols)| Probe { ts, range, cols })
}

fn strategy() -> BoxedStrategy<Case> {
    (
        spec(),
        prop::option::weighted(0.6, 1usize..5),
        prop::collection::vec(op(), 1..14),
        prop::collection::vec(probe(), 3..6),
    )
        .prop_map(|(spec, capacity, ops, probes)| Case {
            spec,
            capacity,
            ops,
            probes,
        })
        .boxed()
}

type Ends = (Option<(Key, bool)>, Option<(Key, bool)>);

pub fn probe_ends(spec: &Spec, probe: &Probe) -> Option<Ends> {
    probe.range.as_ref().map(|r| r.ends(spec))
}

pub fn probe_cols(spec: &Spec, probe: &Probe) -> Option<Vec<usize>> {
    probe.cols.as_ref().map(|cols| {
        let mut out: Vec<usize> = Vec::new();
        for c in cols {
            let c = *c as usize % spec.cols.len();
            if !out.contains(&c) {
                out.push(c);
            }
        }
        out
    })
}

/// What a scan with this probe has to return from `store`.
pub fn expected(
    store: &Mvcc,
    ends: &Option<Ends>,
    cols: &Option<Vec<usize>>,
    ts: u64,
) -> Vec<(Key, u64, Option<Row>)> {
    store
        .visible(ts)
        .into_iter()
        .filter(|(k, _, _)| ends.as_ref().is_none_or(|e| Range::contains(e, k)))
        .map(|(k, t, row)| {
            let row = row.map(|row| match cols {
                Some(cols) => cols.iter().map(|c| row[*c].clone()).collect(),
                None => row,
            });
            (k, t, row)
        })
        .collect()
}

fn key_pool(spec: &Spec) -> Vec<Key> {
    let mut keys: Vec<Key> = (0..12).map(|i| spec.key(i)).collect();
    keys.sort();
    keys.dedup();
    keys
}

/// Statistics the buffer has to report.
#[derive(Default, Clone, Debug)]
struct Counts {
    written: u64,
    batches: usize,
    empty_batches: usize,
}

fn check_buffer(case: &Case, mem: &Mem, model: &Mvcc, counts: &Counts, obs: &mut Obs) -> TestResult {
    let spec = &case.spec;
    for probe in &case.probes {
        let ends = probe_ends(spec, probe);
        let cols = probe_cols(spec, probe);
        let got = mem.scan(
            ends.as_ref().map(|e| Range::bounds(spec, e)),
            cols.as_ref().map(|c| spec.projected(c)),
            probe.ts,
        )?;
        compare_entries(
            &got,
            &expected(model, &ends, &cols, probe.ts),
            &format!("buffer scan {ends:?} columns {cols:?} at {}", probe.ts),
        )?;
        obs.check();
        for key in key_pool(spec) {
            ensure_eq!(
                mem.has_conflict(&owned_key(spec, &key), probe.ts),
                model.newest(&key).is_some_and(|t| t > probe.ts),
                "buffer conflict check for {key:?} against snapshot {}",
                probe.ts
            );
            obs.check();
        }
    }
    ensure_eq!(mem.row_count(), model.len(), "buffer version count");
    let (lo, hi) = mem.key_bounds();
    ensure_eq!(lo.as_ref().map(key_vals), model.versions.keys().next().cloned(), "buffer min key");
    ensure_eq!(
        hi.as_ref().map(key_vals),
        model.versions.keys().next_back().cloned(),
        "buffer max key"
    );
    ensure_eq!(mem.commit_ts_bounds(), ts_bounds(model), "buffer timestamp range");
    let stats = mem.stats(None);
    ensure_eq!(stats.entries, model.versions.len(), "distinct keys in the buffer");
    ensure_eq!(stats.inserts, counts.written, "writes since the last seal");
    ensure_eq!(
        stats.replaces,
        counts.written - model.versions.len() as u64,
        "overwrites since the last seal"
    );
    let bytes: usize = model
        .versions
        .keys()
        .flatten()
        .map(|v| match v {
            Val::S(s) => s.len(),
            Val::B(b) => b.len(),
            _ => 0,
        })
        .sum();
    ensure_eq!(stats.approx_key_bytes, bytes, "key bytes in the buffer");
    let batches = stats.dyn_batches.unwrap_or(0);
    ensure!(
        batches >= counts.batches && batches <= counts.batches + counts.empty_batches,
        "batch count {batches}, attached {counts:?}"
    );
    obs.checks += 7;
    Ok(())
}

fn ts_bounds(model: &Mvcc) -> Option<(u64, u64)> {
    let all = model.all();
    Some((
        all.iter().map(|x| x.1).min()?,
        all.iter().map(|x| x.1).max()?,
    ))
}

pub fn check_segment(
    spec: &Spec,
    probes: &[Probe],
    seg: &Imm,
    model: &Mvcc,
    obs: &mut Obs,
) -> TestResult {
    for probe in probes {
        let ends = probe_ends(spec, probe);
        let cols = probe_cols(spec, probe);
        let got = seg.scan(
            ends.as_ref().map(|e| Range::bounds(spec, e)),
            cols.as_ref().map(|c| spec.projected(c)),
            probe.ts,
        )?;
        compare_entries(
            &got,
            &expected(model, &ends, &cols, probe.ts),
            &format!("segment scan {ends:?} columns {cols:?} at {}", probe.ts),
        )?;
        obs.check();
        for key in key_pool(spec) {
            ensure_eq!(
                seg.has_conflict(&owned_key(spec, &key), probe.ts),
                model.newest(&key).is_some_and(|t| t > probe.ts),
                "segment conflict check for {key:?} against snapshot {}",
                probe.ts
            );
            obs.check();
        }
    }
    let got: Vec<(Key, u64, bool)> = seg
        .versions()?
        .iter()
        .map(|(k, t, d)| (key_vals(k), *t, *d))
        .collect();
    ensure_eq!(got, model.all(), "versions stored in the segment");
    ensure_eq!(seg.entry_count(), model.len(), "segment entry count");
    let (lo, hi) = seg.key_bounds();
    ensure_eq!(lo.as_ref().map(key_vals), model.versions.keys().next().cloned(), "segment min key");
    ensure_eq!(
        hi.as_ref().map(key_vals),
        model.versions.keys().next_back().cloned(),
        "segment max key"
    );
    ensure_eq!(seg.commit_ts_bounds(), ts_bounds(model), "segment timestamp range");
    obs.checks += 5;
    Ok(())
}

fn bad_schema_batch(spec: &Spec) -> RecordBatch {
    // Same width, one column of another name.
    let rows = vec![spec.row(0, 1)];
    let good = spec.batch(&rows);
    let mut fields: Vec<Field> = good.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
    let last = fields.len() - 1;
    fields[last] = fields[last].clone().with_name("renamed");
    RecordBatch::try_new(Arc::new(Schema::new(fields)), good.columns().to_vec()).expect("batch")
}

fn with_null_key(spec: &Spec, pos: usize) -> Option<Vec<Row>> {
    let col = spec.keys[pos % spec.keys.len()];
    if !spec.cols[col].nullable {
        return None;
    }
    let mut rows = vec![spec.row(0, 1), spec.row(1, 2)];
    rows[1][col] = Val::Null;
    Some(rows)
}

/// State of one run, reused by the single-purpose suites.
pub struct Run {
    pub mem: Mem,
    pub buffer: Mvcc,
    pub sealed: Vec<(Imm, Mvcc)>,
    pub all: Mvcc,
    counts: Counts,
}

impl Run {
    pub fn new(spec: &Spec, capacity: Option<usize>) -> Result<Self, String> {
        Ok(Run {
            mem: Mem::new(spec.config(), capacity)?,
            buffer: Mvcc::default(),
            sealed: Vec::new(),
            all: Mvcc::default(),
            counts: Counts::default(),
        })
    }

    fn sealed_by(&mut self, seg: Option<Imm>) {
        if let Some(seg) = seg {
            let model = std::mem::take(&mut self.buffer);
            self.sealed.push((seg, model));
            self.counts = Counts::default();
        }
    }

    /// Apply one step to the code and to the model.
    pub fn step(&mut self, spec: &Spec, op: &Op, obs: &mut Obs) -> TestResult {
        match op {
            Op::Put { rows, ts, sliced } => {
                let rows: Vec<Row> = rows.iter().map(|(k, s)| spec.row(*k, *s)).collect();
                let batch = if *sliced { spec.sliced_batch(&rows) } else { spec.batch(&rows) };
                let seg = self
                    .mem
                    .insert(batch, *ts)
                    .map_err(|e| format!("insert rejected: {e}"))?;
                self.sealed_by(seg);
                if rows.is_empty() {
                    self.counts.empty_batches += 1;
                } else {
                    self.counts.batches += 1;
                }
                for row in rows {
                    self.put(spec, *ts, spec.key_of(&row), Some(row));
                }
            }
            Op::PutMvcc { rows } => {
                let built: Vec<Row> = rows.iter().map(|(k, s, _)| spec.row(*k, *s)).collect();
                let col = UInt64Array::from(rows.iter().map(|r| r.2).collect::<Vec<_>>());
                let seg = self
                    .mem
                    .insert_mvcc(spec.batch(&built), col)
                    .map_err(|e| format!("versioned insert rejected: {e}"))?;
                self.sealed_by(seg);
                self.counts.batches += 1;
                for (row, (_, _, ts)) in built.into_iter().zip(rows) {
                    self.put(spec, *ts, spec.key_of(&row), Some(row));
                }
            }
            Op::Del { keys } => {
                let keys: Vec<(Key, u64)> = keys.iter().map(|(k, t)| (spec.key(*k), *t)).collect();
                let batch = spec.delete_batch(&self.mem.delete_schema(), &keys);
                let seg = self
                    .mem
                    .delete(batch)
                    .map_err(|e| format!("delete rejected: {e}"))?;
                self.sealed_by(seg);
                self.counts.batches += 1;
                for (key, ts) in keys {
                    self.put(spec, ts, key, None);
                }
            }
            Op::Seal => {
                let seg = self.mem.seal().map_err(|e| format!("seal failed: {e}"))?;
                ensure_eq!(
                    seg.is_some(),
                    self.buffer.len() > 0,
                    "sealing a buffer with {} versions",
                    self.buffer.len()
                );
                self.sealed_by(seg);
            }
            Op::Bad(kind) => {
                let result = match kind {
                    Bad::Schema => self.mem.insert(bad_schema_batch(spec), 3),
                    Bad::ShortTs => self
                        .mem
                        .insert_mvcc(spec.batch(&[spec.row(0, 1), spec.row(1, 2)]), vec![1u64].into()),
                    Bad::NullTs => self.mem.insert_mvcc(
                        spec.batch(&[spec.row(0, 1), spec.row(1, 2)]),
                        UInt64Array::from(vec![Some(1), None]),
                    ),
                    Bad::NullKey => match with_null_key(spec, self.all.len()) {
                        Some(rows) => {
                            obs.class("null key rejected");
                            self.mem.insert(spec.batch(&rows), 4)
                        }
                        None => return Ok(()),
                    },
                    Bad::DeleteSchema => {
                        let schema = self.mem.delete_schema();
                        let batch = spec.delete_batch(&schema, &[(spec.key(0), 1)]);
                        let n = schema.fields().len() - 1;
                        let mut fields: Vec<Field> =
                            schema.fields().iter().map(|f| f.as_ref().clone()).collect();
                        fields[n] = Field::new("other", DataType::UInt64, false);
                        self.mem.delete(
                            RecordBatch::try_new(
                                Arc::new(Schema::new(fields)),
                                batch.columns().to_vec(),
                            )
                            .expect("batch"),
                        )
                    }
                    Bad::DeleteNullKey => match with_null_key(spec, self.all.len()) {
                        Some(rows) => {
                            let keys: Vec<(Key, u64)> =
                                rows.iter().map(|r| (spec.key_of(r), 5)).collect();
                            let batch = spec.delete_batch(&self.mem.delete_schema(), &keys);
                            self.mem.delete(batch)
                        }
                        None => return Ok(()),
                    },
                };
                ensure!(result.is_err(), "invalid batch accepted: {kind:?}");
                obs.class("invalid batch rejected");
            }
        }
        Ok(())
    }

    fn put(&mut self, _spec: &Spec, ts: u64, key: Key, row: Option<Row>) {
        self.counts.written += 1;
        self.buffer.put(key.clone(), ts, row.clone());
        self.all.put(key, ts, row);
    }
}

fn test(case: &Case, obs: &mut Obs) -> TestResult {
    let spec = &case.spec;
    let mut run = Run::new(spec, case.capacity)?;
    for (i, op) in case.ops.iter().enumerate() {
        let before = run.sealed.len();
        run.step(spec, op, obs).map_err(|e| format!("step {i} {op:?}: {e}"))?;
        if run.sealed.len() > before && !matches!(op, Op::Seal) {
            obs.class("sealed because full");
        }
        check_buffer(case, &run.mem, &run.buffer, &run.counts, obs)
            .map_err(|e| format!("after step {i} {op:?}: {e}"))?;
        for (n, (seg, model)) in run.sealed.iter().enumerate() {
            check_segment(spec, &case.probes, seg, model, obs)
                .map_err(|e| format!("after step {i} {op:?}, segment {n}: {e}"))?;
        }
    }
    // Skipping segments is safe.
    let segs: Vec<&Imm> = run.sealed.iter().map(|(s, _)| s).collect();
    for probe in &case.probes {
        for with_range in [true, false] {
            let ends = if with_range { probe_ends(spec, probe) } else { None };
            let bounds = ends.as_ref().map(|e| {
                Bounds::new(
                    e.0.as_ref().map(|(k, i)| (owned_key(spec, k), *i)),
                    e.1.as_ref().map(|(k, i)| (owned_key(spec, k), *i)),
                )
            });
            let kept = v::prune(&segs, bounds.as_ref(), probe.ts);
            ensure!(
                kept.windows(2).all(|w| w[0] < w[1]) && kept.iter().all(|i| *i < segs.len()),
                "kept segments {kept:?}"
            );
            for (i, (_, model)) in run.sealed.iter().enumerate() {
                if !kept.contains(&i) {
                    let lost = expected(model, &ends, &None, probe.ts);
                    ensure!(
                        lost.is_empty(),
                        "segment {i} skipped for {ends:?} at {} although it holds {lost:?}",
                        probe.ts
                    );
                    obs.class("segment skipped");
                }
                obs.check();
            }
        }
    }
    // Everything together still holds every version ever written.
    let mut union = Mvcc::default();
    for (seg, model) in &run.sealed {
        let _ = seg;
        for (k, vs) in &model.versions {
            for (t, r) in vs {
                union.put(k.clone(), *t, r.clone());
            }
        }
    }
    obs.class_if(run.sealed.len() > 1, "several segments");
    obs.class_if(
        run.all.versions.values().any(|v| v.len() > 1 && v.values().any(|r| r.is_none())),
        "delete next to other versions",
    );
    obs.nontrivial = run.all.versions.values().any(|v| v.len() > 1);
    Ok(())
}

pub const MEM: Gen<Case> = Gen {
    name: "memtable",
    rule: "1-13 inserts, versioned inserts, deletes, seals and invalid batches over a generated \
           layout and slot capacity, checked after every step; non-trivial: some key has several \
           versions",
    strategy,
    test,
};
