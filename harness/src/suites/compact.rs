#![cfg_attr(not(feature = "full"), allow(dead_code, unused_imports))]
//! Compaction: input tables replaced by merged output tables.

use std::{collections::BTreeSet, sync::Arc};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{self as v, Imm, Mem, Source, SsTable};

use super::sst::*;
use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
    sim::{Fault, SimExec, SimFs, block_on},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CompactCase {
    layers: Layers,
    /// Which layers stay outside the compaction.
    outside: Vec<bool>,
    format: Format,
    max_rows: Option<usize>,
    max_bytes: Option<usize>,
    chunk_rows: usize,
    budget: Option<usize>,
    fault: Option<(u64, Fault)>,
    wal: Vec<Option<u8>>,
    reverse: bool,
}

fn strategy() -> BoxedStrategy<CompactCase> {
    (
        layers(5),
        prop::collection::vec(prop::bool::weighted(0.25), 5),
        format(),
        prop::option::weighted(0.5, 1usize..6),
        prop::option::weighted(0.3, prop_oneof![Just(1usize), 50usize..2000, Just(1 << 30)]),
        prop_oneof![Just(1usize), 2usize..6, Just(1024usize)],
        prop::option::weighted(0.25, 1usize..14),
        prop::option::weighted(0.35, (0u64..24, fault())),
        prop::collection::vec(prop::option::weighted(0.8, any::<u8>()), 5),
        any::<bool>(),
    )
        .prop_map(
            |(layers, outside, format, max_rows, max_bytes, chunk_rows, budget, fault, wal, reverse)| {
                CompactCase {
                    layers,
                    outside,
                    format,
                    max_rows,
                    max_bytes,
                    chunk_rows,
                    budget,
                    fault,
                    wal,
                    reverse,
                }
            },
        )
        .boxed()
}

fn fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        Just(Fault::Fail),
        (0u16..=256).prop_map(|keep| Fault::FailPartial { keep }),
    ]
}

/// Newest version of every key, deletes included.
fn newest(model: &Mvcc) -> Mvcc {
    let mut out = Mvcc::default();
    for (k, t, r) in model.visible(u64::MAX) {
        out.put(k, t, r);
    }
    out
}

fn wal_ids(bits: Option<u8>) -> Option<Vec<ulid::Ulid>> {
    bits.map(|b| {
        (0..8u32)
            .rev()
            .filter(|i| b >> i & 1 == 1)
            .map(|i| ulid::Ulid::from(500 + i as u128))
            .collect()
    })
}

/// Check the outputs of a compaction against the newest versions of its inputs.
async fn check_outputs(
    spec: &Spec,
    config: &v::SsTableConfig,
    outputs: &[SsTable],
    want: &Mvcc,
    max_rows: Option<usize>,
    refs: &BTreeSet<ulid::Ulid>,
    level: usize,
    obs: &mut Obs,
) -> TestResult {
    let mut rest = want.versions.clone();
    let mut ids = BTreeSet::new();
    let mut last: Option<Key> = None;
    for table in outputs {
        let desc = table.descriptor();
        ensure!(ids.insert(desc.id().raw()), "output id {} used twice", desc.id().raw());
        ensure_eq!(desc.level(), level, "output level");
        let got: BTreeSet<ulid::Ulid> = desc.wal_ids().unwrap_or_default().iter().copied().collect();
        ensure_eq!(&got, refs, "log references of an output");
        let (rows, dels) = raw_versions(spec, config, desc).await?;
        ensure!(!rows.is_empty() || !dels.is_empty(), "empty output table");
        if let Some(cap) = max_rows {
            ensure!(rows.len() <= cap.max(1), "output of {} rows, cap {cap}", rows.len());
        }
        let keys: BTreeSet<Key> = rows
            .iter()
            .map(|r| r.0.clone())
            .chain(dels.iter().map(|d| d.0.clone()))
            .collect();
        ensure_eq!(keys.len(), rows.len() + dels.len(), "an output holds a key twice");
        if let Some(last) = &last {
            ensure!(
                Some(last) < keys.first(),
                "outputs overlap: {last:?} and {:?}",
                keys.first()
            );
        }
        last = keys.last().cloned();
        let mut model = Mvcc::default();
        for k in keys {
            let Some(vs) = rest.remove(&k) else {
                return Err(format!("output holds unexpected key {k:?}"));
            };
            model.versions.insert(k, vs);
        }
        check_table(spec, config, desc, &model, obs).await?;
    }
    ensure!(
        rest.is_empty(),
        "compaction lost {} keys, first {:?}",
        rest.len(),
        rest.iter().next()
    );
    Ok(())
}

#[cfg(feature = "full")]
fn test(case: &CompactCase, obs: &mut Obs) -> TestResult {
    let spec = &case.layers.spec;
    let segs = segments(&case.layers)?;
    let mut outside: Vec<bool> = (0..segs.len()).map(|i| case.outside[i]).collect();
    if outside.iter().all(|o| *o) {
        outside[0] = false;
    }
    let fs = SimFs::new();
    let config = config(spec, &case.format, &fs);
    block_on(async {
        let mut tables = Vec::new();
        for (i, (seg, _)) in segs.iter().enumerate() {
            tables.push(
                v::sst_write(
                    Arc::clone(&config),
                    i as u64 + 1,
                    0,
                    &[seg],
                    wal_ids(case.wal[i]),
                    SimExec,
                )
                .await
                .map_err(|e| e.to_string())?,
            );
        }
        let before = fs.files("");
        let mut inputs: Vec<usize> = (0..segs.len()).filter(|i| !outside[*i]).collect();
        if case.reverse {
            inputs.reverse();
        }
        let descs = inputs.iter().map(|i| tables[*i].descriptor().clone()).collect();
        let refs: BTreeSet<ulid::Ulid> = inputs
            .iter()
            .flat_map(|i| wal_ids(case.wal[*i]).unwrap_or_default())
            .collect();
        let want = newest(&merge_models(inputs.iter().map(|i| &segs[*i].1)));
        if let Some((after, fault)) = &case.fault {
            fs.spare_removes();
            fs.arm(*after, *fault);
        }
        let result = v::sst_merge(
            Arc::clone(&config),
            descs,
            100,
            1,
            (case.max_rows, case.max_bytes),
            case.chunk_rows,
            case.budget,
            SimExec,
        )
        .await;
        let fired = case.fault.is_some_and(|(after, _)| fs.ops() > after);
        fs.disarm();
        // Whatever happened, the inputs are untouched.
        for (path, data) in &before {
            ensure!(fs.read_file(path).as_ref() == Some(data), "compaction changed its input {path}");
        }
        match result {
            Err(e) => {
                obs.class("compaction failed");
                ensure!(
                    case.budget.is_some() || fired || case.fault.is_some(),
                    "compaction failed without cause: {e}"
                );
                let left: Vec<String> = fs
                    .files("")
                    .into_iter()
                    .map(|f| f.0)
                    .filter(|p| !before.iter().any(|b| &b.0 == p))
                    .collect();
                ensure!(left.is_empty(), "failed compaction ({e}) left {left:?} behind");
            }
            Ok(outputs) => {
                if let Some(budget) = case.budget {
                    ensure!(
                        want.versions.len() <= budget,
                        "{} keys merged with a budget of {budget}",
                        want.versions.len()
                    );
                }
                if case.max_rows.is_none() && case.max_bytes.is_none() {
                    ensure_eq!(outputs.len(), 1, "number of outputs without caps");
                }
                check_outputs(spec, &config, &outputs, &want, case.max_rows, &refs, 1, obs).await?;
                let mut paths: BTreeSet<String> = before.iter().map(|f| f.0.clone()).collect();
                for t in &outputs {
                    let d = t.descriptor();
                    for p in d.data_path().into_iter().chain(d.delete_path()) {
                        ensure!(paths.insert(p.as_ref().to_string()), "output path {p} used twice");
                    }
                }
                let now: BTreeSet<String> = fs.files("").into_iter().map(|f| f.0).collect();
                ensure_eq!(now, paths, "files after the compaction");
                // Reading the outputs with the tables left outside gives what reading all gave.
                let whole = merge_models(segs.iter().map(|s| &s.1));
                let sources: Vec<Source<'_>> = outputs
                    .iter()
                    .chain(tables.iter().enumerate().filter(|(i, _)| outside[*i]).map(|(_, t)| t))
                    .map(|t| Source::Sst(t.descriptor(), case.format.batch_rows))
                    .collect();
                let got = v::merge_scan(&spec.config(), &config, &sources, None, u64::MAX, None, SimExec)
                    .await
                    .map_err(|e| format!("scan after compaction failed: {e}"))?;
                let want: Vec<_> = whole
                    .live(u64::MAX)
                    .into_iter()
                    .map(|(k, t, r)| (k, t, Some(r)))
                    .collect();
                compare_entries(&got, &want, "content after compaction")?;
                obs.check();
                obs.class_if(outputs.len() > 1, "several outputs");
                obs.class_if(sources.len() > outputs.len(), "tables outside");
                obs.nontrivial = inputs.len() > 1
                    && whole.versions.values().any(|v| v.len() > 1);
            }
        }
        Ok(())
    })
}

#[cfg(feature = "full")]
pub const COMPACT: Gen<CompactCase> = Gen {
    name: "compact",
    rule: "1-5 tables of 1-8 writes, some of them compacted with generated caps, chunk size, \
           iteration budget and injected write failures; outputs, statistics, log references, \
           files and the merged content compared with the reference store; non-trivial: several \
           inputs and some key with several versions",
    strategy,
    test,
};

// ---------------------------------------------------------------------------------------------
// Tables longer than one read batch
// ---------------------------------------------------------------------------------------------

/// Keys `start, start + step, ...`, `count` of them, written or deleted at `ts`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    start: i64,
    step: i64,
    count: i64,
    ts: u64,
    delete: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BulkCase {
    tables: Vec<Vec<Run>>,
    max_rows: Option<usize>,
    chunk_rows: usize,
    batch_rows: usize,
}

fn run() -> impl Strategy<Value = Run> {
    (
        0i64..1500,
        prop_oneof![3 => Just(1i64), 1 => 2i64..40],
        prop_oneof![2 => 1i64..60, 3 => 1000i64..1300],
        0u64..50,
        prop::bool::weighted(0.35),
    )
        .prop_map(|(start, step, count, ts, delete)| Run {
            start,
            step,
            count,
            ts,
            delete,
        })
}

fn bulk_strategy() -> BoxedStrategy<BulkCase> {
    (
        prop::collection::vec(prop::collection::vec(run(), 1..4), 1..3),
        prop::option::of(300usize..2000),
        prop_oneof![Just(1024usize), 100usize..700],
        prop_oneof![Just(1024usize), 50usize..600],
    )
        .prop_map(|(tables, max_rows, chunk_rows, batch_rows)| BulkCase {
            tables,
            max_rows,
            chunk_rows,
            batch_rows,
        })
        .boxed()
}

fn bulk_test(case: &BulkCase, obs: &mut Obs) -> TestResult {
    let spec = Spec::simple();
    let fs = SimFs::new();
    let format = Format {
        row_group: 1 << 20,
        zstd: false,
        batch_rows: case.batch_rows,
    };
    let config = config(&spec, &format, &fs);
    block_on(async {
        let mut tables = Vec::new();
        let mut models = Vec::new();
        for (i, runs) in case.tables.iter().enumerate() {
            let mem = Mem::new(spec.config(), None)?;
            let mut writes = Vec::new();
            for r in runs {
                let ts = r.ts * case.tables.len() as u64 + i as u64;
                for n in 0..r.count {
                    let k = r.start + n * r.step;
                    let row = vec![Val::I(k), Val::S(format!("t{i}@{ts}"))];
                    writes.push((vec![Val::I(k)], ts, (!r.delete).then_some(row)));
                }
            }
            let model = fill(&spec, &mem, &writes)?;
            let seg: Imm = mem.seal()?.ok_or("nothing to seal")?;
            let table = v::sst_write(Arc::clone(&config), i as u64 + 1, 0, &[&seg], None, SimExec)
                .await
                .map_err(|e| e.to_string())?;
            check_table(&spec, &config, table.descriptor(), &model, obs).await?;
            let got = v::sst_scan(
                &spec.config(),
                &config,
                table.descriptor(),
                None,
                u64::MAX,
                case.batch_rows,
                SimExec,
            )
            .await?;
            compare_entries(&got, &model.visible(u64::MAX), "long table scan")?;
            obs.class_if(model.len() > 1024, "table longer than a batch");
            tables.push(table);
            models.push(model);
        }
        let want = newest(&merge_models(&models));
        #[cfg(feature = "full")]
        {
            let descs = tables.iter().map(|t| t.descriptor().clone()).collect();
            let outputs = v::sst_merge(
                Arc::clone(&config),
                descs,
                100,
                1,
                (case.max_rows, None),
                case.chunk_rows,
                None,
                SimExec,
            )
            .await
            .map_err(|e| format!("compaction failed: {e}"))?;
            check_outputs(&spec, &config, &outputs, &want, case.max_rows, &BTreeSet::new(), 1, obs)
                .await?;
        }
        let sources: Vec<Source<'_>> = tables
            .iter()
            .map(|t| Source::Sst(t.descriptor(), case.batch_rows))
            .collect();
        let got = v::merge_scan(&spec.config(), &config, &sources, None, u64::MAX, None, SimExec)
            .await?;
        let live: Vec<_> = want
            .live(u64::MAX)
            .into_iter()
            .map(|(k, t, r)| (k, t, Some(r)))
            .collect();
        compare_entries(&got, &live, "merged long tables")?;
        obs.nontrivial = want.versions.len() > 1024;
        Ok(())
    })
}

pub const BULK: Gen<BulkCase> = Gen {
    name: "bulk_tables",
    rule: "1-2 tables holding runs of up to 1300 rows and deletes each, so that reads and merges \
           cross batch boundaries; non-trivial: more than 1024 distinct keys",
    strategy: bulk_strategy,
    test: bulk_test,
};
