//! Tables on storage: written, read back, merged with the in-memory sources.

use std::sync::Arc;

use arrow_array::UInt64Array;
use fusio::{DynFs, path::Path};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{self as v, Imm, Mem, Source, SsTableConfig, SsTableDescriptor, Staged};

use super::mem::{Probe, check_segment, expected, probe, probe_cols, probe_ends};
use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
    sim::{SimExec, SimFs, block_on},
};

/// Staged rows with list, large, fixed-size or time-zoned columns cannot be scanned (known findings
/// KF-staged-list and KF-wide-staged).
fn staged_list(spec: &Spec) -> bool {
    let wide = [Ty::List, Ty::LStr, Ty::LBin, Ty::Fsb, Ty::Time];
    spec.cols.iter().any(|c| wide.contains(&c.ty))
}

/// One write: key number, timestamp, value seed (or a delete).
pub type Write = (u8, u64, Option<u32>);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layers {
    pub spec: Spec,
    /// Timestamps of later layers are all newer when false, interleaved with earlier ones when
    /// true.
    pub interleave: bool,
    pub layers: Vec<Vec<Write>>,
}

impl Layers {
    pub fn ts(&self, layer: usize, ts: u64) -> u64 {
        let n = self.layers.len() as u64;
        if self.interleave {
            ts * n + layer as u64
        } else {
            ts + 12 * layer as u64
        }
    }

    pub fn max_ts(&self) -> u64 {
        12 * (self.layers.len() as u64 + 1)
    }

    /// Map an abstract probe timestamp onto the range the layers use.
    pub fn probe_ts(&self, ts: u64) -> u64 {
        if ts > 12 {
            ts
        } else {
            ts * self.layers.len() as u64
        }
    }

    /// The writes of one layer, concrete.
    pub fn writes(&self, layer: usize) -> Vec<(Key, u64, Option<Row>)> {
        self.layers[layer]
            .iter()
            .map(|(k, ts, val)| {
                let ts = self.ts(layer, *ts);
                match val {
                    Some(seed) => {
                        let row = self.spec.row(*k, *seed);
                        (self.spec.key_of(&row), ts, Some(row))
                    }
                    None => (self.spec.key(*k), ts, None),
                }
            })
            .collect()
    }
}

/// Fill a write buffer with concrete writes, in order.
pub fn fill(
    spec: &Spec,
    mem: &Mem,
    writes: &[(Key, u64, Option<Row>)],
) -> Result<Mvcc, String> {
    let mut model = Mvcc::default();
    let mut i = 0;
    while i < writes.len() {
        let mut j = i;
        while j < writes.len() && writes[j].2.is_some() == writes[i].2.is_some() {
            j += 1;
        }
        let run = &writes[i..j];
        if run[0].2.is_some() {
            let rows: Vec<Row> = run.iter().map(|w| w.2.clone().unwrap()).collect();
            let col = UInt64Array::from(run.iter().map(|w| w.1).collect::<Vec<_>>());
            mem.insert_mvcc(spec.batch(&rows), col)?;
        } else {
            let keys: Vec<(Key, u64)> = run.iter().map(|w| (w.0.clone(), w.1)).collect();
            mem.delete(spec.delete_batch(&mem.delete_schema(), &keys))?;
        }
        for (k, ts, row) in run {
            model.put(k.clone(), *ts, row.clone());
        }
        i = j;
    }
    Ok(model)
}

/// Build each layer as a sealed segment.
pub fn segments(layers: &Layers) -> Result<Vec<(Imm, Mvcc)>, String> {
    (0..layers.layers.len())
        .map(|l| {
            let mem = Mem::new(layers.spec.config(), None)?;
            let model = fill(&layers.spec, &mem, &layers.writes(l))?;
            let seg = mem.seal()?.ok_or("nothing to seal")?;
            Ok((seg, model))
        })
        .collect()
}

pub fn merge_models<'a>(models: impl IntoIterator<Item = &'a Mvcc>) -> Mvcc {
    let mut out = Mvcc::default();
    for m in models {
        for (k, vs) in &m.versions {
            for (t, r) in vs {
                out.put(k.clone(), *t, r.clone());
            }
        }
    }
    out
}

pub fn write() -> impl Strategy<Value = Write> {
    (0u8..9, 0u64..12, prop::option::weighted(0.7, 0u32..300))
}

pub fn layers(max: usize) -> BoxedStrategy<Layers> {
    (
        spec(),
        any::<bool>(),
        prop::collection::vec(prop::collection::vec(write(), 1..9), 1..=max),
    )
        .prop_map(|(spec, interleave, layers)| Layers {
            spec,
            interleave,
            layers,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Format {
    pub row_group: usize,
    pub zstd: bool,
    pub batch_rows: usize,
}

pub fn format() -> impl Strategy<Value = Format> {
    (
        prop_oneof![1 => Just(1usize), 3 => 2usize..5, 2 => Just(1 << 20)],
        any::<bool>(),
        prop_oneof![1 => Just(1usize), 3 => 2usize..4, 2 => Just(1024usize)],
    )
        .prop_map(|(row_group, zstd, batch_rows)| Format {
            row_group,
            zstd,
            batch_rows,
        })
}

pub fn config(spec: &Spec, format: &Format, fs: &SimFs) -> Arc<SsTableConfig> {
    let fs: Arc<dyn DynFs> = Arc::new(fs.clone());
    let config = v::sst_config(&spec.config(), fs, Path::from("db/sst"))
        .with_max_row_group_rows(format.row_group);
    Arc::new(if format.zstd {
        config.with_compression(tonbo::verif::SsTableCompression::Zstd)
    } else {
        config
    })
}

/// Versions stored in the raw files of a table, sorted as the files hold them.
pub async fn raw_versions(
    spec: &Spec,
    config: &SsTableConfig,
    desc: &SsTableDescriptor,
) -> Result<(Vec<(Key, u64, Row)>, Vec<(Key, u64)>), String> {
    let (data, deletes) = v::sst_raw(config, desc, SimExec).await?;
    let mut rows = Vec::new();
    for batch in &data {
        for mut row in batch_rows(batch) {
            let Some(Val::U(ts)) = row.get(spec.cols.len()).cloned() else {
                return Err(format!("table row without commit timestamp: {row:?}"));
            };
            row.truncate(spec.cols.len());
            rows.push((spec.key_of(&row), ts, row));
        }
    }
    let mut dels = Vec::new();
    for batch in &deletes {
        for row in batch_rows(batch) {
            let n = spec.keys.len();
            let Val::U(ts) = row[n] else {
                return Err(format!("delete row without commit timestamp: {row:?}"));
            };
            dels.push((row[..n].to_vec(), ts));
        }
    }
    Ok((rows, dels))
}

pub fn sorted_newest_first<'a>(items: impl Iterator<Item = (&'a Key, u64)>) -> bool {
    let items: Vec<(&Key, u64)> = items.collect();
    items
        .windows(2)
        .all(|w| w[0].0 < w[1].0 || (w[0].0 == w[1].0 && w[0].1 > w[1].1))
}

/// Check a written table against the versions it has to hold.
pub async fn check_table(
    spec: &Spec,
    config: &SsTableConfig,
    desc: &SsTableDescriptor,
    model: &Mvcc,
    obs: &mut Obs,
) -> TestResult {
    let (rows, dels) = raw_versions(spec, config, desc).await?;
    let mut want_rows = Vec::new();
    let mut want_dels = Vec::new();
    for (k, vs) in &model.versions {
        for (t, r) in vs.iter().rev() {
            match r {
                Some(r) => want_rows.push((k.clone(), *t, Some(r.clone()))),
                None => want_dels.push((k.clone(), *t, None)),
            }
        }
    }
    ensure!(
        sorted_newest_first(rows.iter().map(|r| (&r.0, r.1))),
        "data file is not sorted by key, newest first: {rows:?}"
    );
    ensure!(
        sorted_newest_first(dels.iter().map(|r| (&r.0, r.1))),
        "delete file is not sorted by key, newest first: {dels:?}"
    );
    let got: Vec<_> = rows.into_iter().map(|(k, t, r)| (k, t, Some(r))).collect();
    compare(&got, &want_rows, "rows stored in the table")?;
    let got: Vec<_> = dels.into_iter().map(|(k, t)| (k, t, None)).collect();
    compare(&got, &want_dels, "deletes stored in the table")?;
    let stats = desc.stats().map(v::stats).ok_or("table without statistics")?;
    ensure_eq!(stats.rows, want_rows.len(), "recorded row count");
    ensure_eq!(stats.tombstones, want_dels.len(), "recorded delete count");
    ensure_eq!(
        desc.delete_path().is_some(),
        !want_dels.is_empty(),
        "delete file present"
    );
    check_bounds(&stats, model)?;
    obs.checks += 8;
    Ok(())
}

/// Recorded bounds must enclose every stored key and timestamp.
pub fn check_bounds(stats: &v::Stats, model: &Mvcc) -> TestResult {
    let (Some(lo), Some(hi)) = (&stats.min_key, &stats.max_key) else {
        return Err("table without key bounds".into());
    };
    let (Some(min_ts), Some(max_ts)) = (stats.min_ts, stats.max_ts) else {
        return Err("table without timestamp bounds".into());
    };
    let all = model.all();
    ensure_eq!(
        Some(key_vals(lo)),
        all.iter().map(|x| x.0.clone()).min(),
        "recorded smallest key"
    );
    ensure_eq!(
        Some(key_vals(hi)),
        all.iter().map(|x| x.0.clone()).max(),
        "recorded largest key"
    );
    ensure_eq!(Some(min_ts), all.iter().map(|x| x.1).min(), "recorded oldest commit");
    ensure_eq!(Some(max_ts), all.iter().map(|x| x.1).max(), "recorded newest commit");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// One table
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SstCase {
    layers: Layers,
    format: Format,
    probes: Vec<Probe>,
    /// Order in which the segments are handed to the builder.
    rotate: usize,
    reverse: bool,
    level: usize,
    wal_ids: Option<u8>,
}

fn sst_strategy() -> BoxedStrategy<SstCase> {
    (
        layers(4),
        format(),
        prop::collection::vec(probe(), 2..5),
        0usize..4,
        any::<bool>(),
        0usize..3,
        prop::option::of(0u8..4),
    )
        .prop_map(|(layers, format, probes, rotate, reverse, level, wal_ids)| SstCase {
            layers,
            format,
            probes,
            rotate,
            reverse,
            level,
            wal_ids,
        })
        .boxed()
}

fn sst_test(case: &SstCase, obs: &mut Obs) -> TestResult {
    let spec = &case.layers.spec;
    let segs = segments(&case.layers)?;
    for (seg, model) in &segs {
        check_segment(spec, &[], seg, model, obs)?;
    }
    let mut order: Vec<&Imm> = segs.iter().map(|(s, _)| s).collect();
    let n = order.len();
    order.rotate_left(case.rotate % n);
    if case.reverse {
        order.reverse();
    }
    let model = merge_models(segs.iter().map(|(_, m)| m));
    let fs = SimFs::new();
    let config = config(spec, &case.format, &fs);
    let wal_ids: Option<Vec<ulid::Ulid>> = case
        .wal_ids
        .map(|n| (0..n).map(|i| ulid::Ulid::from(1000 + i as u128)).collect());
    block_on(async {
        let table = v::sst_write(
            Arc::clone(&config),
            7,
            case.level,
            &order,
            wal_ids.clone(),
            SimExec,
        )
        .await
        .map_err(|e| format!("writing the table failed: {e}"))?;
        let desc = table.descriptor();
        ensure_eq!(desc.id().raw(), 7, "table id");
        ensure_eq!(desc.level(), case.level, "table level");
        ensure_eq!(desc.wal_ids().map(|w| w.to_vec()), wal_ids, "log references");
        check_table(spec, &config, desc, &model, obs).await?;
        for probe in &case.probes {
            let ts = case.layers.probe_ts(probe.ts);
            let cols = probe_cols(spec, probe);
            let got = v::sst_scan(
                &spec.config(),
                &config,
                desc,
                cols.clone(),
                ts,
                case.format.batch_rows,
                SimExec,
            )
            .await
            .map_err(|e| format!("scan failed: {e}"))?;
            compare_entries(
                &got,
                &expected(&model, &None, &cols, ts),
                &format!("table scan at {ts}, columns {cols:?}"),
            )?;
            obs.check();
        }
        Ok(())
    })?;
    obs.class_if(n > 1, "several segments");
    obs.class_if(model.all().iter().any(|x| x.2), "with deletes");
    obs.class_if(model.all().iter().all(|x| x.2), "only deletes");
    obs.class_if(spec.keys.len() > 1, "composite key");
    obs.nontrivial = n > 1 && model.versions.values().any(|v| v.len() > 1);
    Ok(())
}

pub const SST: Gen<SstCase> = Gen {
    name: "sst",
    rule: "1-4 sealed segments of 1-8 writes written to one table (any segment order, row group \
           size, compression, read batch size), raw files, statistics and scans compared with the \
           reference store; non-trivial: several segments and some key with several versions",
    strategy: sst_strategy,
    test: sst_test,
};

// ---------------------------------------------------------------------------------------------
// Merged scans
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Mutable,
    Sealed,
    Table,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MergeCase {
    layers: Layers,
    kinds: Vec<Kind>,
    staged: Option<Vec<(u8, Option<u32>)>>,
    format: Format,
    probes: Vec<Probe>,
    limit: usize,
    shuffle: usize,
}

fn merge_strategy() -> BoxedStrategy<MergeCase> {
    (
        layers(6),
        prop::collection::vec(
            prop_oneof![
                1 => Just(Kind::Mutable),
                2 => Just(Kind::Sealed),
                2 => Just(Kind::Table),
            ],
            6,
        ),
        prop::option::weighted(0.5, prop::collection::vec((0u8..9, prop::option::weighted(0.6, 0u32..300)), 0..6)),
        format(),
        prop::collection::vec(probe(), 2..5),
        0usize..8,
        0usize..720,
    )
        .prop_map(|(layers, kinds, staged, format, probes, limit, shuffle)| MergeCase {
            layers,
            kinds,
            staged,
            format,
            probes,
            limit,
            shuffle,
        })
        .boxed()
}

enum Built {
    Mutable(Mem),
    Sealed(Imm),
    Table(v::SsTable),
}

fn merge_test(case: &MergeCase, obs: &mut Obs) -> TestResult {
    let spec = &case.layers.spec;
    let fs = SimFs::new();
    let config = config(spec, &case.format, &fs);
    let cfg = spec.config();
    block_on(async {
        let mut built = Vec::new();
        let mut models = Vec::new();
        let mut tables = 0;
        for l in 0..case.layers.layers.len() {
            let mem = Mem::new(spec.config(), None)?;
            models.push(fill(spec, &mem, &case.layers.writes(l))?);
            built.push(match case.kinds[l % case.kinds.len()] {
                Kind::Mutable => Built::Mutable(mem),
                Kind::Sealed => Built::Sealed(mem.seal()?.ok_or("nothing to seal")?),
                Kind::Table => {
                    let seg = mem.seal()?.ok_or("nothing to seal")?;
                    tables += 1;
                    Built::Table(
                        v::sst_write(
                            Arc::clone(&config),
                            l as u64 + 1,
                            0,
                            &[&seg],
                            None,
                            SimExec,
                        )
                        .await
                        .map_err(|e| e.to_string())?,
                    )
                }
            });
        }
        // The order in which sources are listed must not matter.
        let mut order: Vec<usize> = (0..built.len()).collect();
        let mut x = case.shuffle;
        for i in (1..order.len()).rev() {
            order.swap(i, x % (i + 1));
            x /= i + 1;
        }
        let model = merge_models(&models);
        for probe in &case.probes {
            let ts = case.layers.probe_ts(probe.ts);
            let ends = probe_ends(spec, probe);
            // Tables have no key range of their own here: range the memory sources only when
            // there is no table.
            let ends = if tables == 0 && case.staged.is_none() { ends } else { None };
            let mut view = model.clone();
            for vs in view.versions.values_mut() {
                vs.retain(|t, _| *t <= ts);
            }
            view.versions.retain(|_, vs| !vs.is_empty());
            let staged = case.staged.as_ref().filter(|_| !staged_list(spec)).map(|ops| {
                let mut map = std::collections::BTreeMap::new();
                for (k, val) in ops {
                    map.insert(spec.key(*k), val.map(|s| spec.row(*k, s)));
                }
                map
            });
            let staged_obj = staged.as_ref().map(|map| {
                Staged::new(
                    map.iter()
                        .map(|(k, r)| (owned_key(spec, k), r.as_ref().map(|r| dyn_row(spec, r))))
                        .collect(),
                    ts,
                )
            });
            let mut want: std::collections::BTreeMap<Key, Option<Row>> = expected(&view, &ends, &None, ts)
                .into_iter()
                .map(|(k, _, r)| (k, r))
                .collect();
            if let Some(map) = &staged {
                want.extend(map.iter().map(|(k, r)| (k.clone(), r.clone())));
            }
            let want: Vec<(Key, Row)> = want
                .into_iter()
                .filter_map(|(k, r)| r.map(|r| (k, r)))
                .collect();
            for limit in [None, Some(case.limit), Some(want.len())] {
                let mut sources: Vec<Source<'_>> = Vec::new();
                if let Some(s) = &staged_obj {
                    sources.push(Source::Txn(s));
                }
                for i in &order {
                    sources.push(match &built[*i] {
                        Built::Mutable(m) => Source::Mutable(m),
                        Built::Sealed(s) => Source::Immutable(s),
                        Built::Table(t) => Source::Sst(t.descriptor(), case.format.batch_rows),
                    });
                }
                let got = v::merge_scan(
                    &cfg,
                    &config,
                    &sources,
                    ends.as_ref().map(|e| Range::bounds(spec, e)),
                    ts,
                    limit,
                    SimExec,
                )
                .await
                .map_err(|e| format!("merged scan failed: {e}"))?;
                let got: Vec<_> = got
                    .iter()
                    .map(|(k, t, r)| (key_vals(k), *t, r.as_ref().map(row_vals)))
                    .collect();
                ensure!(
                    got.windows(2).all(|w| w[0].0 < w[1].0),
                    "merged keys are not strictly increasing: {got:?}"
                );
                let want: Vec<_> = want
                    .iter()
                    .take(limit.unwrap_or(usize::MAX))
                    .map(|(k, r)| {
                        let t = if staged.as_ref().is_some_and(|s| s.contains_key(k)) {
                            ts
                        } else {
                            view.newest(k).unwrap_or(0)
                        };
                        (k.clone(), t, Some(r.clone()))
                    })
                    .collect();
                compare(
                    &got,
                    &want,
                    &format!("merged scan at {ts}, range {ends:?}, limit {limit:?}, order {order:?}"),
                )?;
                obs.check();
            }
            obs.class_if(staged.as_ref().is_some_and(|s| s.values().any(Option::is_none)), "staged delete");
            obs.class_if(want.len() > case.limit, "limit cuts");
        }
        obs.class_if(tables > 0 && tables < built.len(), "memory and tables");
        obs.nontrivial = built.len() > 1 && model.versions.values().any(|v| v.len() > 1);
        Ok(())
    })
}

pub const MERGE: Gen<MergeCase> = Gen {
    name: "merge",
    rule: "1-6 layers of writes, each held by a write buffer, a sealed segment or a table, plus \
           optional staged writes, merged in a generated source order at several timestamps, \
           ranges and limits; non-trivial: several sources and some key with several versions",
    strategy: merge_strategy,
    test: merge_test,
};

// ---------------------------------------------------------------------------------------------
// Staged writes alone
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StagedCase {
    spec: Spec,
    staged: Vec<(u8, Option<u32>)>,
    ts: u64,
    cols: Option<Vec<u8>>,
}

fn staged_strategy() -> BoxedStrategy<StagedCase> {
    (
        spec(),
        prop::collection::vec((0u8..12, prop::option::weighted(0.6, 0u32..300)), 0..10),
        super::mem::ts(),
        prop::option::weighted(0.5, prop::collection::vec(any::<u8>(), 1..4)),
    )
        .prop_map(|(spec, staged, ts, cols)| StagedCase {
            spec,
            staged,
            ts,
            cols,
        })
        .boxed()
}

fn staged_test(case: &StagedCase, obs: &mut Obs) -> TestResult {
    if staged_list(&case.spec) {
        obs.excluded += 1;
        return Ok(());
    }
    staged_scan(case, obs)
}

fn staged_scan(case: &StagedCase, obs: &mut Obs) -> TestResult {
    let spec = &case.spec;
    let cols = probe_cols(
        spec,
        &Probe {
            ts: 0,
            range: None,
            cols: case.cols.clone(),
        },
    );
    let mut map = std::collections::BTreeMap::new();
    for (k, val) in &case.staged {
        map.insert(spec.key(*k), val.map(|s| spec.row(*k, s)));
    }
    let staged = Staged::new(
        map.iter()
            .map(|(k, r)| (owned_key(spec, k), r.as_ref().map(|r| dyn_row(spec, r))))
            .collect(),
        case.ts,
    );
    let schema = cols.as_ref().map(|c| spec.projected(c));
    let got = v::txn_scan(&spec.config(), &staged, schema.as_ref())?;
    let want: Vec<(Key, u64, Option<Row>)> = map
        .iter()
        .map(|(k, r)| {
            (
                k.clone(),
                case.ts,
                r.as_ref().map(|r| match &cols {
                    Some(c) => c.iter().map(|i| r[*i].clone()).collect(),
                    None => r.clone(),
                }),
            )
        })
        .collect();
    obs.check();
    obs.nontrivial = map.values().any(Option::is_none) && map.values().any(Option::is_some);
    obs.class_if(cols.is_some(), "projected");
    compare_entries(&got, &want, "scan of staged writes")
}

pub const STAGED: Gen<StagedCase> = Gen {
    name: "staged",
    rule: "up to 9 staged upserts and deletes scanned with and without a projection; \
           non-trivial: at least one of each",
    strategy: staged_strategy,
    test: staged_test,
};

/// As `staged`, list columns included; only used to replay the known finding.
pub const STAGED_LIST: Gen<StagedCase> = Gen {
    name: "staged_list",
    rule: "staged writes including list, large and fixed-size columns",
    strategy: staged_strategy,
    test: staged_scan,
};
