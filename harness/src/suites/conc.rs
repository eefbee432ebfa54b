#![cfg(feature = "full")]
//! Concurrent clients of one database: what they are told and what they see must be explained by
//! some one-at-a-time order of their operations that respects real time.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, HashSet},
    time::Duration,
};

use fusio::executor::Timer;
use futures::{TryStreamExt, future::join_all};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    ensure,
    model::*,
    runner::{Gen, Obs, TestResult},
    sim::{Fault, SimExec, SimFs, block_on},
    suites::db::{Db, Knobs, collect_rows, fault, knobs, open, planner},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Write(Vec<(u8, u32, bool)>),
    Txn {
        puts: Vec<(u8, u32)>,
        dels: Vec<u8>,
        gets: Vec<u8>,
        scan: bool,
        gap: u8,
        abort: bool,
    },
    Scan,
    /// Scan whose stream is left open for a while before it is read; or is never read.
    Slow(u8, bool),
    /// Snapshot, a pause, then a scan of it.
    Snap(u8),
    Seal,
    Flush,
    Compact(u8),
    Pause(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConcCase {
    spec: Spec,
    knobs: Knobs,
    schedule: u64,
    /// Rounds of concurrent clients; a round starts when every client of the last one is done.
    rounds: Vec<Vec<Vec<Act>>>,
    /// Fault armed at the start of this round, that many file operations later.
    fault: Option<(u8, u8, Fault)>,
    clean: bool,
    /// Also check what the open findings exclude.
    #[serde(default)]
    strict: bool,
}

fn act() -> impl Strategy<Value = Act> {
    let few = || prop::collection::vec((0u8..5, 0u32..64), 0..3);
    prop_oneof![
        8 => prop::collection::vec((0u8..5, 0u32..64, prop::bool::weighted(0.25)), 1..4)
            .prop_map(Act::Write),
        6 => (
            few(),
            prop::collection::vec(0u8..5, 0..2),
            prop::collection::vec(0u8..5, 0..3),
            any::<bool>(),
            0u8..20,
            prop::bool::weighted(0.1),
        )
            .prop_map(|(puts, dels, gets, scan, gap, abort)| Act::Txn {
                puts, dels, gets, scan, gap, abort
            }),
        4 => Just(Act::Scan),
        2 => (0u8..20, prop::bool::weighted(0.2)).prop_map(|(n, d)| Act::Slow(n, d)),
        2 => (0u8..20).prop_map(Act::Snap),
        2 => Just(Act::Seal),
        2 => Just(Act::Flush),
        1 => (0u8..12).prop_map(Act::Compact),
        3 => (0u8..30).prop_map(Act::Pause),
    ]
}

fn case() -> impl Strategy<Value = ConcCase> {
    let client = || prop::collection::vec(act(), 1..4);
    let round = prop::collection::vec(client(), 1..5);
    (
        db_spec(),
        knobs(),
        1u64..u64::MAX,
        prop::collection::vec(round, 1..4),
        prop::option::weighted(0.3, (0u8..3, 0u8..20, fault())),
        any::<bool>(),
    )
        .prop_map(|(mut spec, mut knobs, schedule, rounds, mut fault, clean)| {
            // Staged rows with list columns cannot be scanned (KF-staged-list).
            for col in &mut spec.cols {
                if col.ty == Ty::List {
                    col.ty = Ty::Str;
                }
            }
            if let Some(f) = &mut fault {
                f.0 %= rounds.len() as u8;
            }
            ConcCase { spec, knobs, schedule, rounds, fault, clean, strict: false }
        })
}

macro_rules! scan_all {
    ($builder:expr) => {
        $builder.collect().await.map_err(|e| format!("scan failed: {e}"))
    };
}

type Rows = BTreeMap<Key, Row>;
type Unit = Vec<(Key, Option<Row>)>;

#[derive(Clone, Debug)]
enum What {
    /// A write. When unsure it may never take effect. `begin`: the event its transaction began
    /// with.
    Unit { unit: Unit, sure: bool, begin: Option<usize> },
    /// A full scan, or a scan of a snapshot, that no write was in flight under.
    Read(Rows),
    /// A scan that a write was in flight under (KF-inflight-read): it is only checked key by key.
    Loose(Rows),
    /// A transaction began; what it read, apart from its own writes.
    Begin { gets: Vec<(Key, Option<Row>)>, scans: Vec<(Unit, Rows)> },
    /// Memtables moved to a table file.
    Flush,
    Compact,
}

#[derive(Clone, Debug)]
struct Event {
    start: u64,
    end: u64,
    what: What,
}

impl Event {
    fn overlaps(&self, start: u64, end: u64) -> bool {
        self.start <= end && start <= self.end
    }
}

const OPEN: u64 = u64::MAX;

#[derive(Default)]
struct Log {
    tick: Cell<u64>,
    events: RefCell<Vec<Event>>,
    /// Rejected transactions: their keys, when they began and ended.
    refused: RefCell<Vec<(BTreeSet<Key>, u64, u64)>>,
    faults: Cell<u64>,
}

impl Log {
    fn now(&self) -> u64 {
        self.tick.set(self.tick.get() + 1);
        self.tick.get()
    }
    fn push(&self, start: u64, end: u64, what: What) -> usize {
        let mut e = self.events.borrow_mut();
        e.push(Event { start, end, what });
        e.len() - 1
    }
}

struct Ctx<'a> {
    spec: &'a Spec,
    db: &'a Db,
    fs: &'a SimFs,
    log: &'a Log,
    ids: &'a Cell<u64>,
    excluded: &'a Cell<u64>,
    strict: bool,
}

async fn yields(n: u8) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

impl Ctx<'_> {
    fn keyed(&self, rows: Vec<Row>) -> Result<Rows, String> {
        let n = rows.len();
        let map: Rows = rows.into_iter().map(|r| (self.spec.key_of(&r), r)).collect();
        ensure!(map.len() == n, "a scan returned a key twice");
        Ok(map)
    }

    fn push_read(&self, start: u64, end: u64, rows: Rows, calm: bool) {
        let what = if calm || self.strict {
            What::Read(rows)
        } else {
            self.excluded.set(self.excluded.get() + 1);
            What::Loose(rows)
        };
        self.log.push(start, end, what);
    }

    fn fault_or(&self, e: String) -> TestResult {
        if self.fs.faults_fired() > 0 { Ok(()) } else { Err(e) }
    }

    async fn client(&self, acts: &[Act]) -> TestResult {
        for act in acts {
            self.act(act).await?;
        }
        Ok(())
    }

    async fn act(&self, act: &Act) -> TestResult {
        let (spec, log) = (self.spec, self.log);
        match act {
            Act::Pause(n) => yields(*n).await,
            Act::Write(rows) => {
                let mut unit: Unit = Vec::new();
                let (mut data, mut dels) = (Vec::new(), Vec::new());
                for (k, val, del) in rows {
                    let row = spec.row(*k, *val);
                    let key = spec.key_of(&row);
                    if !persistable_key(spec, &key) {
                        self.excluded.set(self.excluded.get() + 1);
                        continue;
                    }
                    if unit.iter().all(|(k, _)| *k != key) {
                        unit.push((key, (!del).then(|| row.clone())));
                        data.push(row);
                        dels.push(*del);
                    }
                }
                if unit.is_empty() {
                    return Ok(());
                }
                let batch = spec.batch(&data);
                let at = log.push(
                    log.now(),
                    OPEN,
                    What::Unit { unit, sure: false, begin: None },
                );
                let done = if dels.iter().any(|d| *d) {
                    self.db.ingest_with_tombstones(batch, dels).await
                } else {
                    self.db.ingest(batch).await
                };
                match done {
                    Ok(()) => {
                        let mut events = log.events.borrow_mut();
                        events[at].end = log.now();
                        if let What::Unit { sure, .. } = &mut events[at].what {
                            *sure = true;
                        }
                    }
                    Err(e) => self.fault_or(format!("write failed without a fault: {e}"))?,
                }
            }
            Act::Scan => {
                let start = log.now();
                match scan_all!(self.db.scan()) {
                    Ok(got) => {
                        let rows = self.keyed(collect_rows(&got))?;
                        let end = log.now();
                        let calm = !log.events.borrow().iter().any(|e| {
                            matches!(e.what, What::Unit { .. }) && e.overlaps(start, end)
                        });
                        self.push_read(start, end, rows, calm);
                    }
                    Err(e) => self.fault_or(e)?,
                }
            }
            Act::Slow(gap, dropped) => {
                let start = log.now();
                let stream = match self.db.scan().stream().await {
                    Ok(s) => s,
                    Err(e) => return self.fault_or(format!("scan failed: {e}")),
                };
                let taken = log.now();
                let calm = !log.events.borrow().iter().any(|e| {
                    matches!(e.what, What::Unit { .. }) && e.overlaps(start, taken)
                });
                yields(*gap).await;
                if *dropped {
                    return Ok(());
                }
                match stream.try_collect::<Vec<_>>().await {
                    Ok(got) => {
                        let rows = self.keyed(collect_rows(&got))?;
                        let end = log.now();
                        self.push_read(start, if calm { taken } else { end }, rows, calm);
                    }
                    Err(e) => self.fault_or(format!("scan failed: {e}"))?,
                }
            }
            Act::Snap(gap) => {
                let start = log.now();
                let snap = match self.db.begin_snapshot().await {
                    Ok(s) => s,
                    Err(e) => return self.fault_or(format!("snapshot: {e}")),
                };
                let taken = log.now();
                let calm = !log.events.borrow().iter().any(|e| {
                    matches!(e.what, What::Unit { .. }) && e.end == OPEN
                });
                yields(*gap).await;
                match scan_all!(snap.scan(self.db)) {
                    Ok(got) => {
                        let rows = self.keyed(collect_rows(&got))?;
                        let end = log.now();
                        self.push_read(start, if calm { taken } else { end }, rows, calm);
                    }
                    Err(e) => self.fault_or(e)?,
                }
            }
            Act::Txn { puts, dels, gets, scan, gap, abort } => {
                let start = log.now();
                let mut txn = match self.db.begin_transaction().await {
                    Ok(t) => t,
                    Err(e) => return self.fault_or(format!("begin: {e}")),
                };
                let taken = log.now();
                let calm = !log.events.borrow().iter().any(|e| {
                    matches!(e.what, What::Unit { .. }) && e.end == OPEN
                });
                let begin = log.push(
                    start,
                    taken,
                    What::Begin { gets: Vec::new(), scans: Vec::new() },
                );
                let mut staged: BTreeMap<Key, Option<Row>> = BTreeMap::new();
                for (k, val) in puts {
                    let row = spec.row(*k, *val);
                    let key = spec.key_of(&row);
                    if persistable_key(spec, &key) {
                        txn.upsert(dyn_row(spec, &row)).map_err(|e| format!("upsert: {e}"))?;
                        staged.insert(key, Some(row));
                    }
                }
                for k in dels {
                    let key = spec.key(*k);
                    if persistable_key(spec, &key) {
                        txn.delete(owned_key(spec, &key)).map_err(|e| format!("delete: {e}"))?;
                        staged.insert(key, None);
                    }
                }
                yields(*gap).await;
                let mut seen_gets = Vec::new();
                let mut seen_scans = Vec::new();
                for k in gets {
                    let key = spec.key(*k);
                    if !persistable_key(spec, &key) {
                        continue;
                    }
                    match txn.get(&owned_key(spec, &key)).await {
                        Ok(got) => {
                            let got = got.map(|r| row_vals(&r));
                            match staged.get(&key) {
                                Some(own) => {
                                    let (g, w): (Vec<Row>, Vec<Row>) =
                                        (got.into_iter().collect(), own.iter().cloned().collect());
                                    compare_rows(&g, &w, "get of an own write")?;
                                }
                                None => seen_gets.push((key, got)),
                            }
                        }
                        Err(e) => self.fault_or(format!("get: {e}"))?,
                    }
                }
                let unit: Unit = staged.iter().map(|(k, r)| (k.clone(), r.clone())).collect();
                if *scan {
                    match scan_all!(txn.scan()) {
                        Ok(got) => {
                            let rows = self.keyed(collect_rows(&got))?;
                            seen_scans.push((unit.clone(), rows));
                        }
                        Err(e) => self.fault_or(e)?,
                    }
                }
                if calm || self.strict {
                    log.events.borrow_mut()[begin].what =
                        What::Begin { gets: seen_gets, scans: seen_scans };
                } else {
                    self.excluded.set(self.excluded.get() + 1);
                }
                if *abort {
                    txn.abort();
                    return Ok(());
                }
                let keys: BTreeSet<Key> = staged.keys().cloned().collect();
                let empty = unit.is_empty();
                let from = log.now();
                let at = (!empty).then(|| {
                    log.push(from, OPEN, What::Unit { unit, sure: false, begin: Some(begin) })
                });
                match txn.commit().await {
                    Ok(()) => {
                        if let Some(at) = at {
                            let end = log.now();
                            let mut events = log.events.borrow_mut();
                            events[at].end = end;
                            if let What::Unit { sure, .. } = &mut events[at].what {
                                *sure = true;
                            }
                        }
                    }
                    Err(e) if format!("{e:?}").starts_with("WriteConflict") => {
                        let at = at.ok_or("an empty transaction conflicted")?;
                        let end = log.now();
                        let mut events = log.events.borrow_mut();
                        // It must leave nothing behind.
                        events[at].end = end;
                        events[at].what = What::Unit { unit: Vec::new(), sure: true, begin: None };
                        log.refused.borrow_mut().push((keys, start, end));
                    }
                    Err(e) => self.fault_or(format!("commit failed without a fault: {e}"))?,
                }
            }
            Act::Seal => {
                self.db.verif_seal()?;
            }
            Act::Flush => {
                self.ids.set(self.ids.get() + 1_000_000);
                let at = log.push(log.now(), OPEN, What::Flush);
                match self.db.verif_flush(self.ids.get()).await {
                    Ok(_) => log.events.borrow_mut()[at].end = log.now(),
                    Err(e) => self.fault_or(format!("flush failed: {e}"))?,
                }
            }
            Act::Compact(n) => {
                self.ids.set(self.ids.get() + 1_000_000);
                let planner = planner(*n);
                let at = log.push(log.now(), OPEN, What::Compact);
                match self.db.verif_compact(planner, self.ids.get(), None).await {
                    Ok(_) => log.events.borrow_mut()[at].end = log.now(),
                    // Losing the race for the manifest head is fair, and must change nothing.
                    Err(e) if e.contains("CAS conflict") => {
                        let mut events = log.events.borrow_mut();
                        let (start, end) = (events[at].start, log.now());
                        events[at].end = end;
                        let rival = events.iter().enumerate().any(|(i, e)| {
                            i != at && !matches!(e.what, What::Read(_) | What::Loose(_)) && e.overlaps(start, end)
                        });
                        ensure!(rival, "compaction lost a race without a rival: {e}");
                    }
                    Err(e) => self.fault_or(format!("compaction failed: {e}"))?,
                }
            }
        }
        Ok(())
    }
}

/// Search for an order that explains the events.
struct Search<'a> {
    events: &'a [Event],
    budget: usize,
    seen: HashSet<String>,
}

#[derive(Clone)]
struct Place {
    done: u64,
    rows: Rows,
    /// Keys written since each transaction began.
    since: BTreeMap<usize, BTreeSet<Key>>,
}

enum Answer {
    Yes,
    No,
    TooLong,
}

impl Search<'_> {
    fn fits(&self, what: &What, rows: &Rows) -> bool {
        match what {
            What::Read(want) => rows_match(rows, want),
            What::Begin { gets, scans } => {
                gets.iter().all(|(k, r)| match (rows.get(k), r) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same_row(a, b),
                    _ => false,
                }) && scans.iter().all(|(unit, want)| {
                    let mut rows = rows.clone();
                    apply(&mut rows, unit);
                    rows_match(&rows, want)
                })
            }
            _ => true,
        }
    }

    fn go(&mut self, mut at: Place) -> Answer {
        // Reads that fit now may as well happen now.
        loop {
            let free = (0..self.events.len()).find(|i| {
                self.ready(&at, *i)
                    && matches!(self.events[*i].what, What::Read(_) | What::Loose(_) | What::Flush | What::Compact)
                    && self.fits(&self.events[*i].what, &at.rows)
            });
            match free {
                Some(i) => at.done |= 1 << i,
                None => break,
            }
        }
        let left: Vec<usize> = (0..self.events.len()).filter(|i| at.done >> i & 1 == 0).collect();
        if left
            .iter()
            .all(|i| matches!(self.events[*i].what, What::Unit { sure: false, .. }))
        {
            return Answer::Yes;
        }
        if self.budget == 0 {
            return Answer::TooLong;
        }
        self.budget -= 1;
        if !self.seen.insert(format!("{:?}", (at.done, &at.rows, &at.since))) {
            return Answer::No;
        }
        let mut answer = Answer::No;
        for i in left {
            if !self.ready(&at, i) {
                continue;
            }
            let mut next = at.clone();
            next.done |= 1 << i;
            match &self.events[i].what {
                What::Unit { unit, begin, .. } => {
                    if let Some(b) = begin
                        && let Some(written) = at.since.get(b)
                        && unit.iter().any(|(k, _)| written.contains(k))
                    {
                        continue;
                    }
                    apply(&mut next.rows, unit);
                    if let Some(b) = begin {
                        next.since.remove(b);
                    }
                    for written in next.since.values_mut() {
                        written.extend(unit.iter().map(|(k, _)| k.clone()));
                    }
                }
                What::Begin { .. } => {
                    if !self.fits(&self.events[i].what, &at.rows) {
                        continue;
                    }
                    next.since.insert(i, BTreeSet::new());
                }
                _ => continue,
            }
            match self.go(next) {
                Answer::Yes => return Answer::Yes,
                Answer::TooLong => answer = Answer::TooLong,
                Answer::No => {}
            }
        }
        answer
    }

    fn ready(&self, at: &Place, i: usize) -> bool {
        at.done >> i & 1 == 0
            && self.events.iter().enumerate().all(|(j, e)| {
                at.done >> j & 1 == 1 || e.end >= self.events[i].start || j == i
            })
            // A commit follows its beginning.
            && match &self.events[i].what {
                What::Unit { begin: Some(b), .. } => at.done >> b & 1 == 1,
                _ => true,
            }
    }
}

fn apply(rows: &mut Rows, unit: &Unit) {
    for (k, r) in unit {
        match r {
            Some(r) => rows.insert(k.clone(), r.clone()),
            None => rows.remove(k),
        };
    }
}

fn same_row(a: &Row, b: &Row) -> bool {
    compare_rows(std::slice::from_ref(a), std::slice::from_ref(b), "").is_ok()
}

fn rows_match(a: &Rows, b: &Rows) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((_, x), (_, y))| same_row(x, y))
}

fn explained(init: &Rows, events: &[Event]) -> Answer {
    let mut search = Search { events, budget: 20_000, seen: HashSet::new() };
    search.go(Place { done: 0, rows: init.clone(), since: BTreeMap::new() })
}

/// A read that overlaps writes, key by key: each row must be one that was current at some moment.
fn regular(init: &Rows, events: &[Event], read: &Event, rows: &Rows) -> TestResult {
    let mut keys: BTreeSet<&Key> = init.keys().chain(rows.keys()).collect();
    for e in events {
        if let What::Unit { unit, .. } = &e.what {
            keys.extend(unit.iter().map(|(k, _)| k));
        }
    }
    for key in keys {
        let writes: Vec<(u64, u64, Option<&Row>)> = std::iter::once((0, 0, init.get(key)))
            .chain(events.iter().filter_map(|e| match &e.what {
                What::Unit { unit, .. } => unit
                    .iter()
                    .find(|(k, _)| k == key)
                    .map(|(_, r)| (e.start, e.end, r.as_ref())),
                _ => None,
            }))
            .collect();
        let got = rows.get(key);
        let ok = writes.iter().any(|(start, end, row)| {
            *start <= read.end
                && !writes.iter().any(|(s, e, _)| s > end && *e < read.start)
                && match (row, got) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same_row(a, b),
                    _ => false,
                }
        });
        ensure!(ok, "read [{}, {}] of {key:?}: {got:?} was never current", read.start, read.end);
    }
    Ok(())
}

/// Commits miss writes in flight (KF-inflight-conflict): any write when the transaction began,
/// autocommits when it commits. Such a commit is not held to the conflict rule.
fn forgive_missed(events: &mut [Event]) -> u64 {
    let missed: Vec<usize> = (0..events.len())
        .filter(|at| {
            let me = &events[*at];
            let What::Unit { unit: mine, begin: Some(b), .. } = &me.what else { return false };
            let began = &events[*b];
            events.iter().enumerate().any(|(i, e)| match &e.what {
                What::Unit { unit, begin, .. } => {
                    i != *at
                        && (e.overlaps(began.start, began.end)
                            || begin.is_none() && e.overlaps(me.start, me.end))
                        && unit.iter().any(|(k, _)| mine.iter().any(|(m, _)| m == k))
                }
                _ => false,
            })
        })
        .collect();
    for at in &missed {
        if let What::Unit { begin, .. } = &mut events[*at].what {
            *begin = None;
        }
    }
    missed.len() as u64
}

fn dump(events: &[Event]) -> String {
    events.iter().map(|e| format!("\n  [{}, {}] {:?}", e.start, e.end as i64, e.what)).collect()
}

async fn run(case: &ConcCase, obs: &mut Obs) -> TestResult {
    let mut fs = SimFs::with_schedule(case.schedule);
    let mut db = open(&fs, &case.spec, &case.knobs).await?;
    let mut init = Rows::new();
    let ids = Cell::new(0);
    let excluded = Cell::new(0);
    let mut overlapping = false;
    let mut crashed = false;
    for (r, clients) in case.rounds.iter().enumerate() {
        let log = Log::default();
        log.tick.set(1);
        if let Some((at, after, fault)) = &case.fault
            && *at as usize == r
        {
            fs.arm(*after as u64, *fault);
        }
        {
            let ctx = Ctx {
                spec: &case.spec,
                db: &db,
                fs: &fs,
                log: &log,
                ids: &ids,
                excluded: &excluded,
                strict: case.strict,
            };
            let all = join_all(clients.iter().map(|c| ctx.client(c)));
            match tokio::time::timeout(Duration::from_secs(1000), all).await {
                Ok(results) => {
                    for result in results {
                        result.map_err(|e| format!("round {r}: {e}"))?;
                    }
                }
                Err(_) => ensure!(fs.faults_fired() > 0, "round {r}: the clients never finished"),
            }
        }
        let faulty = fs.faults_fired() > 0;
        if faulty {
            drop(db);
            fs.kill();
            fs = fs.restart();
            SimExec.sleep(Duration::from_secs(61)).await;
            db = open(&fs, &case.spec, &case.knobs)
                .await
                .map_err(|e| format!("round {r}: recovery failed: {e}"))?;
            crashed = true;
        } else {
            fs.disarm();
        }
        let got = scan_all!(db.scan())?;
        let ctx = Ctx {
            spec: &case.spec,
            db: &db,
            fs: &fs,
            log: &log,
            ids: &ids,
            excluded: &excluded,
            strict: case.strict,
        };
        let last = ctx.keyed(collect_rows(&got))?;
        let now = log.now();
        log.push(now, now, What::Read(last.clone()));
        let mut events = log.events.into_inner();
        if !case.strict {
            excluded.set(excluded.get() + forgive_missed(&mut events));
        }
        ensure!(events.len() < 60, "harness: too many events");
        obs.check();
        let units = || events.iter().filter(|e| matches!(e.what, What::Unit { .. }));
        overlapping |= units().enumerate().any(|(i, a)| {
            units().skip(i + 1).any(|b| a.overlaps(b.start, b.end))
        });
        // Every rejected transaction has a rival.
        for (keys, start, end) in log.refused.borrow().iter() {
            let rival = events.iter().any(|e| match &e.what {
                What::Unit { unit, .. } => {
                    e.overlaps(*start, *end) && unit.iter().any(|(k, _)| keys.contains(k))
                }
                _ => false,
            });
            ensure!(rival, "round {r}: a transaction was rejected without a rival: {keys:?}{}", dump(&events));
            obs.class("conflict rejected");
        }
        match explained(&init, &events) {
            Answer::Yes => {}
            Answer::TooLong => obs.class("order search cut short"),
            Answer::No => {
                return Err(format!(
                    "round {r}: no order of the operations explains what was seen, from {init:?}{}",
                    dump(&events)
                ));
            }
        }
        for e in &events {
            if let What::Read(rows) | What::Loose(rows) = &e.what {
                regular(&init, &events, e, rows).map_err(|m| format!("round {r}: {m}{}", dump(&events)))?;
            }
        }
        obs.class_if(events.iter().any(|e| matches!(e.what, What::Read(_) | What::Loose(_)) && units().any(|u| u.overlaps(e.start, e.end))), "scan during a write");
        init = last;
    }
    // Restart: nothing changes.
    if case.clean {
        db.verif_shutdown().await?;
    } else {
        drop(db);
        fs.kill();
    }
    fs = fs.restart();
    db = open(&fs, &case.spec, &case.knobs).await.map_err(|e| format!("final reopen: {e}"))?;
    let got = collect_rows(&scan_all!(db.scan())?);
    let want: Vec<Row> = init.into_values().collect();
    obs.check();
    compare_rows(&got, &want, "after the final restart")?;
    obs.excluded += excluded.get();
    obs.class_if(crashed, "crashed");
    obs.nontrivial = overlapping;
    Ok(())
}

fn test(case: &ConcCase, obs: &mut Obs) -> TestResult {
    block_on(run(case, obs))
}

pub static CONC: Gen<ConcCase> = Gen {
    name: "db_concurrent",
    rule: "two writes or commits overlapped",
    strategy: || case().boxed(),
    test,
};

/// Replay only: what reads and commits make of writes in flight (KF-inflight-read,
/// KF-inflight-conflict).
pub static STRICT: Gen<ConcCase> = Gen {
    name: "db_concurrent_strict",
    rule: "two writes or commits overlapped",
    strategy: || {
        case()
            .prop_map(|mut c| {
                if c.schedule % 2 == 0 {
                    c.rounds.iter_mut().flatten().for_each(|acts| {
                        acts.retain(|a| !matches!(a, Act::Txn { .. }))
                    });
                }
                ConcCase { strict: true, fault: None, ..c }
            })
            .boxed()
    },
    test,
};
