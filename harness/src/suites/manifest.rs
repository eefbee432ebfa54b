//! The version catalog: a linear, durable, replayable history.

use std::time::Duration;

use fusio::path::Path;
use futures::future::join_all;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{self as v, Edit, ManifestFailure, Sst, Stats, Table, Version, WalRef};

use crate::{
    ensure, ensure_eq,
    model::{Spec, owned_key, persistable_key, spec},
    runner::{Gen, Obs, TestResult},
    sim::{Fault, SimExec, SimFs, block_on},
};

type Catalog = v::Manifest<SimFs, SimExec>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SstSpec {
    id: u8,
    salt: u8,
    stats: Option<(u8, u8, u8)>,
    wal: Option<Vec<u8>>,
    del: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ESpec {
    Add(u8, Vec<SstSpec>),
    Remove(u8, Vec<u8>),
    Wal(Vec<(u8, u8, u8, u8)>),
    Watermark(u64),
}

pub fn file(id: u8) -> ulid::Ulid {
    ulid::Ulid::from_parts(1_000 + id as u64, id as u128)
}

impl SstSpec {
    pub fn sst(&self, spec: &Spec) -> Sst {
        // Large identifiers exercise the persisted form too.
        let id = match self.id {
            0 => u64::MAX,
            n => n as u64,
        };
        let key = |k: u8| {
            let key = spec.key(k);
            persistable_key(spec, &key).then(|| owned_key(spec, &key))
        };
        Sst {
            id,
            stats: self.stats.map(|(a, b, n)| Stats {
                rows: n as usize,
                bytes: n as usize * 1000,
                tombstones: (n / 3) as usize,
                min_key: key(a),
                max_key: key(b),
                min_ts: (n % 4 != 0).then_some(n as u64),
                max_ts: (n % 4 != 0).then_some(u64::MAX - n as u64),
            }),
            wal_ids: self.wal.as_ref().map(|w| w.iter().map(|f| file(*f)).collect()),
            data_path: format!("sst/L{}/{id:020}.parquet", self.salt),
            delete_path: self.del.then(|| format!("sst/L{}/{id:020}.delete.parquet", self.salt)),
        }
    }
}

impl ESpec {
    fn edit(&self, spec: &Spec) -> Edit {
        match self {
            ESpec::Add(level, ssts) => {
                Edit::Add(*level as u32, ssts.iter().map(|s| s.sst(spec)).collect())
            }
            ESpec::Remove(level, ids) => Edit::Remove(
                *level as u32,
                ids.iter()
                    .map(|id| if *id == 0 { u64::MAX } else { *id as u64 })
                    .collect(),
            ),
            ESpec::Wal(refs) => Edit::Wal(refs.iter().map(|r| wal_ref(*r)).collect()),
            ESpec::Watermark(w) => Edit::Watermark(*w),
        }
    }
}

fn wal_ref((seq, id, first, len): (u8, u8, u8, u8)) -> WalRef {
    WalRef {
        seq: seq as u64,
        file_id: file(id),
        first: first as u64,
        last: first as u64 + len as u64,
    }
}

pub fn empty() -> Version {
    Version {
        ts: 0,
        levels: Vec::new(),
        wal: Vec::new(),
        floor: None,
        watermark: None,
    }
}

/// Reference semantics of one edit set; `None` if it must be rejected.
pub fn fold(mut state: Version, edits: &[Edit]) -> Option<Version> {
    for edit in edits {
        match edit {
            Edit::Add(level, ssts) if !ssts.is_empty() => {
                let level = *level as usize;
                while state.levels.len() <= level {
                    state.levels.push(Vec::new());
                }
                for sst in ssts {
                    match state.levels[level].iter_mut().find(|s| s.id == sst.id) {
                        Some(slot) => *slot = sst.clone(),
                        None => state.levels[level].push(sst.clone()),
                    }
                }
            }
            Edit::Remove(level, ids) if !ids.is_empty() => {
                state
                    .levels
                    .get_mut(*level as usize)?
                    .retain(|s| !ids.contains(&s.id));
            }
            Edit::Add(..) | Edit::Remove(..) => {}
            Edit::Wal(refs) => state.wal = refs.clone(),
            Edit::Watermark(w) => state.watermark = Some(*w),
        }
    }
    for level in &mut state.levels {
        level.sort_by_key(|s| s.id);
    }
    while state.levels.last().is_some_and(Vec::is_empty) {
        state.levels.pop();
    }
    state.wal.sort_by_key(|w| (w.seq, w.first, w.last, w.file_id));
    state.floor = state.wal.first().cloned();
    state.ts += 1;
    Some(state)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Cas {
    No,
    Current,
    Behind(u8),
    Ahead,
    Never,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Publish {
    handle: u8,
    table: u8,
    cas: Cas,
    edits: Vec<ESpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    Publish(Publish),
    /// Several publishers and readers at once.
    Race(Vec<Publish>, Vec<(u8, u8)>),
    /// A publish hit by a fault after some storage operations.
    Faulty(Publish, u8, Fault),
    Reopen(u8),
    /// Register an existing name, possibly with a different definition.
    Register(u8, u8, u8),
    RaceRegister(Vec<u8>),
    Wait,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManifestCase {
    spec: Spec,
    tables: u8,
    handles: u8,
    schedule: u64,
    ops: Vec<MOp>,
}

pub fn sst_spec() -> impl Strategy<Value = SstSpec> {
    (
        0u8..9,
        0u8..3,
        prop::option::weighted(0.8, (0u8..9, 0u8..9, 0u8..30)),
        prop::option::weighted(0.7, prop::collection::vec(0u8..6, 0..4)),
        any::<bool>(),
    )
        .prop_map(|(id, salt, stats, wal, del)| SstSpec {
            id,
            salt,
            stats,
            wal,
            del,
        })
}

fn edits() -> impl Strategy<Value = Vec<ESpec>> {
    let edit = prop_oneof![
        5 => (0u8..4, prop::collection::vec(sst_spec(), 0..4)).prop_map(|(l, s)| ESpec::Add(l, s)),
        4 => (0u8..4, prop::collection::vec(0u8..9, 0..4)).prop_map(|(l, s)| ESpec::Remove(l, s)),
        3 => prop::collection::vec((0u8..5, 0u8..6, 0u8..4, 0u8..4), 0..5).prop_map(ESpec::Wal),
        1 => any::<u64>().prop_map(ESpec::Watermark),
    ];
    prop_oneof![1 => Just(Vec::new()), 30 => prop::collection::vec(edit, 1..4)]
}

fn publish() -> impl Strategy<Value = Publish> {
    (
        0u8..3,
        0u8..3,
        prop_oneof![
            4 => Just(Cas::No),
            4 => Just(Cas::Current),
            2 => (1u8..4).prop_map(Cas::Behind),
            1 => Just(Cas::Ahead),
            1 => Just(Cas::Never),
        ],
        edits(),
    )
        .prop_map(|(handle, table, cas, edits)| Publish {
            handle,
            table,
            cas,
            edits,
        })
}

fn strategy() -> BoxedStrategy<ManifestCase> {
    let fault = prop_oneof![
        (0u16..=256).prop_map(|keep| Fault::Crash { keep }),
        Just(Fault::Fail),
        (0u16..=256).prop_map(|keep| Fault::FailPartial { keep }),
    ];
    let op = prop_oneof![
        10 => publish().prop_map(MOp::Publish),
        3 => (prop::collection::vec(publish(), 2..5), prop::collection::vec((0u8..3, 0u8..3), 0..3))
            .prop_map(|(p, r)| MOp::Race(p, r)),
        3 => (publish(), 0u8..6, fault).prop_map(|(p, n, f)| MOp::Faulty(p, n, f)),
        2 => (0u8..3).prop_map(MOp::Reopen),
        2 => (0u8..3, 0u8..3, 0u8..5).prop_map(|(h, t, k)| MOp::Register(h, t, k)),
        1 => prop::collection::vec(0u8..3, 2..4).prop_map(MOp::RaceRegister),
        1 => Just(MOp::Wait),
    ];
    (
        spec(),
        1u8..3,
        1u8..4,
        prop_oneof![Just(0u64), any::<u64>()],
        prop::collection::vec(op, 1..16),
    )
        .prop_map(|(spec, tables, handles, schedule, ops)| ManifestCase {
            spec,
            tables,
            handles,
            schedule,
            ops,
        })
        .boxed()
}

const ROOT: &str = "db/manifest";

struct World<'a> {
    case: &'a ManifestCase,
    fs: SimFs,
    handles: Vec<Catalog>,
    tables: Vec<(String, Table)>,
    history: Vec<Vec<Version>>,
    extra: usize,
}

async fn open(fs: &SimFs) -> Result<Catalog, String> {
    v::Manifest::open(fs.clone(), &Path::parse(ROOT).unwrap(), SimExec)
        .await
        .map_err(|e| format!("the catalog does not open: {e:?}"))
}

fn definition(kind: u8) -> (&'static str, Vec<String>, u32) {
    match kind {
        1 => ("fp-2", vec!["id".into()], 1),
        2 => ("fp", vec!["id".into(), "x".into()], 1),
        3 => ("fp", vec!["id".into()], 2),
        _ => ("fp", vec!["id".into()], 1),
    }
}

impl World<'_> {
    fn handle(&self, h: u8) -> &Catalog {
        &self.handles[h as usize % self.handles.len()]
    }

    fn table(&self, t: u8) -> usize {
        t as usize % self.tables.len()
    }

    fn head(&self, t: usize) -> Option<u64> {
        self.history[t].last().map(|v| v.ts)
    }

    fn last(&self, t: usize) -> Version {
        self.history[t].last().cloned().unwrap_or_else(empty)
    }

    /// The expected head a publish names: `None` is unconditional.
    fn expected(&self, p: &Publish) -> Option<Option<u64>> {
        let head = self.head(self.table(p.table));
        match p.cas {
            Cas::No => None,
            Cas::Current => Some(head),
            Cas::Behind(n) => Some(head.and_then(|h| h.checked_sub(n as u64)).filter(|h| *h > 0)),
            Cas::Ahead => Some(Some(head.unwrap_or(0) + 1)),
            Cas::Never => Some(None),
        }
    }

    fn edits(&self, p: &Publish) -> Vec<Edit> {
        p.edits.iter().map(|e| e.edit(&self.case.spec)).collect()
    }

    async fn send(&self, p: &Publish) -> Result<u64, ManifestFailure> {
        let table = self.tables[self.table(p.table)].1;
        let edits = self.edits(p);
        match self.expected(p) {
            None => self.handle(p.handle).apply(table, &edits).await,
            Some(want) => self.handle(p.handle).apply_cas(table, want, &edits).await,
        }
    }

    async fn register(&self, h: u8, name: &str, kind: u8) -> Result<Table, ManifestFailure> {
        let (fp, keys, version) = definition(kind);
        self.handle(h).register(name, fp, keys, version).await
    }

    /// Make the storage layer settle what an interrupted publish left behind.
    async fn settle(&self) -> TestResult {
        tokio::time::sleep(Duration::from_secs(61)).await;
        for (name, table) in &self.tables {
            let again = self
                .register(0, name, 0)
                .await
                .map_err(|e| format!("registering {name} again: {e:?}"))?;
            ensure_eq!(again, *table, "table id of {name}");
        }
        Ok(())
    }

    async fn verify(&self, h: u8, obs: &mut Obs) -> TestResult {
        let m = self.handle(h);
        for (t, (name, table)) in self.tables.iter().enumerate() {
            let history = &self.history[t];
            let err = |e| format!("reading {name}: {e:?}");
            let (head, floor, version) = m.latest(*table).await.map_err(err)?;
            ensure_eq!(head, self.head(t), "head of {name}");
            ensure_eq!(version.as_ref(), history.last(), "latest version of {name}");
            let want_floor = history.last().and_then(|v| v.floor.clone());
            ensure_eq!(floor, want_floor, "log floor in the head of {name}");
            ensure_eq!(m.wal_floor(*table).await.map_err(err)?, want_floor, "log floor of {name}");
            let list = m.list(*table, 0).await.map_err(err)?;
            let newest: Vec<_> = history.iter().rev().cloned().collect();
            ensure_eq!(list, newest, "versions of {name}");
            for limit in [1, history.len().max(2) - 1, history.len() + 1] {
                let list = m.list(*table, limit).await.map_err(err)?;
                ensure_eq!(list[..], newest[..limit.min(newest.len())], "newest {limit} of {name}");
            }
            for ts in 0..history.len() as u64 + 2 {
                let want = (ts > 0).then(|| history.get(ts as usize - 1)).flatten();
                let got = m.at(*table, ts).await.map_err(err)?;
                ensure_eq!(got.as_ref(), want, "version {ts} of {name}");
            }
            obs.check();
        }
        Ok(())
    }

    fn leases(&self) -> Vec<String> {
        let files = self.fs.files("").into_iter().map(|f| f.0);
        files.filter(|f| f.contains("lease")).collect()
    }

    /// The current history of a table as the catalog reports it.
    async fn observed(&self, t: usize) -> Result<Vec<Version>, String> {
        let mut list = self
            .handle(0)
            .list(self.tables[t].1, 0)
            .await
            .map_err(|e| format!("listing: {e:?}"))?;
        list.reverse();
        Ok(list)
    }

    async fn publish(&mut self, p: &Publish, obs: &mut Obs) -> TestResult {
        let t = self.table(p.table);
        let edits = self.edits(p);
        let next = fold(self.last(t), &edits);
        let stale = self.expected(p).is_some_and(|want| want != self.head(t));
        let leases = self.leases();
        let got = self.send(p).await;
        match (edits.is_empty(), stale, next) {
            (true, ..) => ensure!(
                matches!(got, Err(ManifestFailure::Invariant(_))),
                "an empty publish gave {got:?}"
            ),
            (_, true, _) => {
                obs.class("stale publish rejected");
                ensure!(matches!(got, Err(ManifestFailure::Cas)), "a stale publish gave {got:?}")
            }
            (_, _, None) => {
                obs.class("impossible edits rejected");
                ensure!(
                    matches!(got, Err(ManifestFailure::Invariant(_))),
                    "removing from a missing level gave {got:?}"
                )
            }
            (_, _, Some(next)) => {
                ensure_eq!(got, Ok(next.ts), "publish");
                self.history[t].push(next);
            }
        }
        // Whatever the outcome, the session's lease is given back.
        ensure_eq!(self.leases(), leases, "leases after the publish");
        Ok(())
    }

    async fn race(&mut self, ps: &[Publish], readers: &[(u8, u8)], obs: &mut Obs) -> TestResult {
        let writes = join_all(ps.iter().map(|p| self.send(p)));
        let reads = join_all(readers.iter().map(|(h, t)| {
            let m = self.handle(*h);
            let table = self.tables[self.table(*t)].1;
            async move { m.latest(table).await }
        }));
        let (results, views) = futures::join!(writes, reads);
        self.settle().await?;
        let before: Vec<usize> = self.history.iter().map(Vec::len).collect();
        for t in 0..self.tables.len() {
            let seen = self.observed(t).await?;
            ensure!(seen.len() >= before[t], "versions disappeared");
            ensure_eq!(seen[..before[t]], self.history[t][..], "history changed");
            let mut used = vec![false; ps.len()];
            let mut committed = 0;
            for (i, version) in seen.iter().enumerate().skip(before[t]) {
                let prev = if i == 0 { empty() } else { seen[i - 1].clone() };
                // An acknowledged publisher owns the version it was told.
                let own = ps.iter().enumerate().position(|(k, p)| {
                    self.table(p.table) == t && results[k] == Ok(i as u64 + 1)
                });
                let fits = |k: usize| {
                    let p = &ps[k];
                    self.table(p.table) == t
                        && !used[k]
                        && self.expected(p).is_none_or(|e| e == (i > 0).then_some(i as u64))
                        && fold(prev.clone(), &self.edits(p)).as_ref() == Some(version)
                };
                let owner = match own {
                    Some(k) => {
                        ensure!(
                            fits(k),
                            "version {} is {version:?}, not the acknowledged edits {:?} (expected \
                             head {:?}) on top of {prev:?}",
                            i + 1,
                            ps[k].edits,
                            self.expected(&ps[k])
                        );
                        k
                    }
                    // A publisher whose commit was completed by another one is told of a conflict.
                    None => (0..ps.len())
                        .find(|k| matches!(results[*k], Err(ManifestFailure::Backend(_))) && fits(*k))
                        .ok_or_else(|| format!("version {} belongs to no publisher", i + 1))?,
                };
                used[owner] = true;
                committed += 1;
            }
            for (k, p) in ps.iter().enumerate().filter(|(_, p)| self.table(p.table) == t) {
                match &results[k] {
                    Ok(ts) => ensure!(used[k], "acknowledged version {ts} is not in the history"),
                    Err(ManifestFailure::Cas) => {
                        let want = self.expected(p);
                        ensure!(
                            want.is_some_and(|w| w != self.head(t)) || seen.len() > before[t],
                            "publish rejected as stale although nothing changed"
                        );
                        obs.class("lost a race");
                    }
                    Err(ManifestFailure::Backend(_)) => obs.class("conflict"),
                    Err(ManifestFailure::Invariant(_)) => {}
                    Err(e) => return Err(format!("publish failed with {e:?}")),
                }
            }
            obs.class_if(committed > 1, "several committed in a race");
            self.history[t] = seen;
        }
        for ((_, t), view) in readers.iter().zip(views) {
            let t = self.table(*t);
            let (head, floor, version) = view.map_err(|e| format!("concurrent read: {e:?}"))?;
            let head = head.unwrap_or(0) as usize;
            ensure!(
                head >= before[t] && head <= self.history[t].len(),
                "a reader saw head {head}"
            );
            let want = (head > 0).then(|| self.history[t][head - 1].clone());
            ensure_eq!(floor, want.as_ref().and_then(|w| w.floor.clone()), "floor seen by a reader");
            ensure_eq!(version, want, "version seen by a reader");
        }
        Ok(())
    }

    async fn faulty(&mut self, p: &Publish, after: u8, fault: Fault, obs: &mut Obs) -> TestResult {
        let t = self.table(p.table);
        let next = fold(self.last(t), &self.edits(p));
        self.fs.arm(after as u64, fault);
        let got = self.send(p).await;
        self.fs.disarm();
        let reject = p.edits.is_empty()
            || next.is_none()
            || self.expected(p).is_some_and(|want| want != self.head(t));
        if self.fs.is_dead() {
            obs.class("crash during publish");
            self.fs = self.fs.restart();
            for h in &mut self.handles {
                *h = open(&self.fs).await?;
            }
        }
        self.settle().await?;
        let seen = self.observed(t).await?;
        let old = &self.history[t];
        ensure!(seen.len() >= old.len(), "versions disappeared");
        ensure_eq!(seen[..old.len()], old[..], "history after a failed publish");
        if seen.len() > old.len() {
            ensure!(!reject, "a rejected publish took effect");
            ensure_eq!(seen.len(), old.len() + 1, "versions after one publish");
            ensure_eq!(seen.last(), next.as_ref(), "published version");
        }
        match got {
            Ok(ts) => ensure_eq!(ts, seen.len() as u64, "acknowledged version"),
            Err(_) => obs.class_if(seen.len() > old.len(), "failed publish completed later"),
        }
        self.history[t] = seen;
        Ok(())
    }
}

fn test(case: &ManifestCase, obs: &mut Obs) -> TestResult {
    // The edit semantics on their own.
    let sets: Vec<Vec<Edit>> = case
        .ops
        .iter()
        .filter_map(|op| match op {
            MOp::Publish(p) => Some(p.edits.iter().map(|e| e.edit(&case.spec)).collect()),
            _ => None,
        })
        .collect();
    let (got, failed) = v::fold_edits(&sets);
    let mut want = empty();
    let mut want_failed = None;
    for (i, set) in sets.iter().enumerate() {
        match fold(want.clone(), set) {
            Some(next) => want = next,
            None => {
                want_failed = Some(i);
                break;
            }
        }
    }
    want.ts = 0;
    ensure_eq!(failed, want_failed, "edit set rejected");
    ensure_eq!(got, want, "edits applied in memory");

    block_on(async {
        let fs = SimFs::with_schedule(case.schedule);
        let mut w = World {
            case,
            fs: fs.clone(),
            handles: Vec::new(),
            tables: Vec::new(),
            history: Vec::new(),
            extra: 0,
        };
        for _ in 0..case.handles {
            w.handles.push(open(&fs).await?);
        }
        for t in 0..case.tables {
            let name = format!("table-{t}");
            let table = w
                .register(t, &name, 0)
                .await
                .map_err(|e| format!("register: {e:?}"))?;
            ensure!(w.tables.iter().all(|(_, id)| *id != table), "table ids repeat");
            w.tables.push((name, table));
            w.history.push(Vec::new());
        }
        for (i, op) in case.ops.iter().enumerate() {
            match op {
                MOp::Publish(p) => w.publish(p, obs).await?,
                MOp::Race(ps, rs) => w.race(ps, rs, obs).await?,
                MOp::Faulty(p, after, fault) => w.faulty(p, *after, *fault, obs).await?,
                MOp::Reopen(h) => {
                    let k = *h as usize % w.handles.len();
                    w.handles[k] = open(&w.fs).await?;
                }
                MOp::Register(h, t, kind) => {
                    let (name, table) = w.tables[w.table(*t)].clone();
                    let got = w.register(*h, &name, *kind).await;
                    if matches!(kind, 1..=3) {
                        ensure!(
                            matches!(got, Err(ManifestFailure::Catalog)),
                            "an incompatible definition of {name} gave {got:?}"
                        );
                    } else {
                        ensure_eq!(got, Ok(table), "registering {name} again");
                    }
                }
                MOp::RaceRegister(hs) => {
                    let name = format!("raced-{}", w.extra);
                    w.extra += 1;
                    let got = join_all(hs.iter().map(|h| w.register(*h, &name, 0))).await;
                    let table = w
                        .register(0, &name, 0)
                        .await
                        .map_err(|e| format!("register {name} after a race: {e:?}"))?;
                    for r in got {
                        match r {
                            Ok(t) => ensure_eq!(t, table, "racing registrations of {name}"),
                            Err(ManifestFailure::Backend(_)) => obs.class("conflict"),
                            Err(e) => return Err(format!("registering {name}: {e:?}")),
                        }
                    }
                    ensure!(w.tables.iter().all(|(_, id)| *id != table), "table ids repeat");
                    w.tables.push((name, table));
                    w.history.push(Vec::new());
                }
                MOp::Wait => tokio::time::sleep(Duration::from_secs(40)).await,
            }
            w.verify(i as u8, obs).await?;
        }
        w.fs.kill();
        w.fs = w.fs.restart();
        w.handles = vec![open(&w.fs).await?];
        w.verify(0, obs).await?;
        obs.nontrivial = w.history.iter().any(|h| h.len() >= 3);
        Ok(())
    })
}

pub const MANIFEST: Gen<ManifestCase> = Gen {
    name: "manifest",
    rule: "up to 15 publishes (plain, conditional on current or stale heads, concurrent, or hit by \
           a storage fault or crash), registrations and reopenings over 1-3 handles and 1-2 tables; \
           every version, listing, head and floor compared with a fold of the edits after each \
           step; non-trivial: a table with at least three versions",
    strategy,
    test,
};
