//! Compaction planning and publishing.

use std::collections::{BTreeMap, HashSet};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::{
    verif::{self as v, Edit, LeveledPlannerConfig, Sst, Stats, Task, WalRef},
};

use super::manifest::{empty, file, fold};
use crate::{
    ensure, ensure_eq,
    model::{Key, Spec, owned_key, spec},
    runner::{Gen, Obs, TestResult},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tab {
    /// Key bounds by abstract key number, either possibly unknown.
    lo: Option<u8>,
    hi: Option<u8>,
    bytes: u16,
    stats: bool,
    wal: Option<Vec<u8>>,
    del: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlanCase {
    spec: Spec,
    levels: Vec<Vec<Tab>>,
    /// Identifiers are handed out in this stride so that levels interleave.
    stride: u8,
    l0: (u8, u8, Option<u16>),
    thresholds: Vec<(u8, Option<u16>)>,
    max_inputs: u8,
    max_bytes: Option<u16>,
    min_level: Option<u8>,
    /// Log segments: gap to the previous one, file, frames.
    wal: Vec<(u8, u8, u8)>,
    outputs: Vec<Tab>,
    /// Tables removed when the plan is not used.
    remove: Vec<(u8, u8)>,
    use_plan: bool,
    target: u8,
}

fn tab() -> impl Strategy<Value = Tab> {
    (
        prop::option::weighted(0.95, 0u8..12),
        prop::option::weighted(0.95, 0u8..12),
        prop_oneof![0u16..20, any::<u16>()],
        prop::bool::weighted(0.95),
        prop::option::weighted(0.95, prop::collection::vec(0u8..7, 0..4)),
        any::<bool>(),
    )
        .prop_map(|(lo, hi, bytes, stats, wal, del)| Tab {
            lo,
            hi,
            bytes,
            stats,
            wal,
            del,
        })
}

fn strategy() -> BoxedStrategy<PlanCase> {
    let level = prop_oneof![
        12 => prop::collection::vec(tab(), 0..7),
        1 => prop::collection::vec(tab(), 20..40),
    ];
    let shape = (
        spec(),
        prop::collection::vec(level, 0..5),
        1u8..8,
        (0u8..8, 0u8..6, prop::option::weighted(0.3, 0u16..100)),
        prop::collection::vec((0u8..6, prop::option::weighted(0.3, 0u16..100)), 0..5),
        0u8..6,
        prop::option::weighted(0.3, 0u16..100),
        prop::option::weighted(0.5, 0u8..5),
    );
    (
        shape,
        prop::collection::vec((prop_oneof![8 => Just(0u8), 1 => 1u8..3], 0u8..7, 0u8..5), 0..7),
        prop::collection::vec(tab(), 0..3),
        prop::collection::vec((0u8..5, any::<u8>()), 0..6),
        prop::bool::weighted(0.6),
        0u8..5,
    )
        .prop_map(
            |(
                (spec, levels, stride, l0, thresholds, max_inputs, max_bytes, min_level),
                wal,
                outputs,
                remove,
                use_plan,
                target,
            )| PlanCase {
                spec,
                levels,
                stride,
                l0,
                thresholds,
                max_inputs,
                max_bytes,
                min_level,
                wal,
                outputs,
                remove,
                use_plan,
                target,
            },
        )
        .boxed()
}

impl Tab {
    fn bounds(&self, spec: &Spec) -> (Option<Key>, Option<Key>) {
        if !self.stats {
            return (None, None);
        }
        let (mut a, mut b) = (self.lo.map(|k| spec.key(k)), self.hi.map(|k| spec.key(k)));
        if let (Some(x), Some(y)) = (&a, &b)
            && x > y
        {
            std::mem::swap(&mut a, &mut b);
        }
        (a, b)
    }

    fn size(&self) -> usize {
        if self.stats { self.bytes as usize } else { 0 }
    }

    fn sst(&self, spec: &Spec, id: u64, level: usize) -> Sst {
        let (lo, hi) = self.bounds(spec);
        Sst {
            id,
            stats: self.stats.then(|| Stats {
                rows: 3,
                bytes: self.bytes as usize,
                tombstones: 1,
                min_key: lo.map(|k| owned_key(spec, &k)),
                max_key: hi.map(|k| owned_key(spec, &k)),
                min_ts: Some(1),
                max_ts: Some(id * 7 % 100),
            }),
            wal_ids: self.wal.as_ref().map(|w| w.iter().map(|f| file(*f)).collect()),
            data_path: format!("sst/L{level}/{id:020}.parquet"),
            delete_path: self.del.then(|| format!("sst/L{level}/{id:020}.delete.parquet")),
        }
    }
}

struct Layout {
    levels: Vec<Vec<Sst>>,
    by_id: BTreeMap<u64, (usize, Tab)>,
}

fn layout(case: &PlanCase) -> Layout {
    let total: usize = case.levels.iter().map(Vec::len).sum();
    let mut by_id = BTreeMap::new();
    let mut levels = Vec::new();
    let mut n = 0usize;
    // A permutation of 1..=total that is monotone within no level in particular.
    let modulus = total + 1;
    let mut step = case.stride as usize;
    while gcd(step, modulus) != 1 {
        step += 1;
    }
    for (level, tabs) in case.levels.iter().enumerate() {
        let mut out = Vec::new();
        for tab in tabs {
            n += 1;
            let id = (n * step % modulus) as u64;
            by_id.insert(id, (level, tab.clone()));
            out.push(tab.sst(&case.spec, id, level));
        }
        levels.push(out);
    }
    Layout { levels, by_id }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn check_plan(
    case: &PlanCase,
    l: &Layout,
    got: &Option<(Task, Result<Vec<(usize, Sst)>, String>)>,
    obs: &mut Obs,
) -> TestResult {
    let size = |level: usize| -> usize { case.levels[level].iter().map(Tab::size).sum() };
    let count = |level: usize| case.levels[level].len();
    let min = case.min_level.unwrap_or(0) as usize;
    let mut source = None;
    for level in min..case.levels.len() {
        if count(level) == 0 {
            continue;
        }
        let over = if level == 0 {
            let (trigger, _, cap) = case.l0;
            count(0) >= trigger as usize || cap.is_some_and(|c| size(0) >= c as usize)
        } else {
            case.thresholds.get(level - 1).is_some_and(|(limit, cap)| {
                count(level) > *limit as usize || cap.is_some_and(|c| size(level) >= c as usize)
            })
        };
        if over {
            source = Some(level);
            break;
        }
    }
    let Some((task, resolved)) = got else {
        ensure!(source.is_none(), "level {source:?} is over its limit but nothing is planned");
        return Ok(());
    };
    ensure_eq!(Some(task.source), source, "source level of the plan");
    ensure_eq!(task.target, task.source + 1, "target level of the plan");
    obs.class("planned");
    let mut seen = HashSet::new();
    for (level, id) in &task.inputs {
        ensure!(seen.insert(*id), "table {id} is planned twice");
        ensure!(
            l.by_id.get(id).is_some_and(|(at, _)| at == level),
            "planned table {id} is not in level {level}"
        );
        ensure!(
            *level == task.source || *level == task.target,
            "planned table {id} is in level {level}"
        );
    }
    let chosen: Vec<&Tab> = task
        .inputs
        .iter()
        .filter(|(level, _)| *level == task.source)
        .map(|(_, id)| &l.by_id[id].1)
        .collect();
    ensure!(!chosen.is_empty(), "a plan without source tables");
    let cap = if task.source == 0 { case.l0.1 } else { case.max_inputs };
    ensure!(
        chosen.len() <= (cap as usize).max(1),
        "{} source tables planned, cap {cap}",
        chosen.len()
    );
    if let Some(cap) = case.max_bytes {
        let bytes: usize = chosen.iter().map(|t| t.size()).sum();
        ensure!(
            chosen.len() == 1 || bytes <= cap as usize,
            "{bytes} bytes planned, cap {cap}"
        );
    }
    let envelope = |tabs: &[&Tab]| -> Option<(Key, Key)> {
        let mut out: Option<(Key, Key)> = None;
        for t in tabs {
            let (Some(a), Some(b)) = t.bounds(&case.spec) else {
                return None;
            };
            out = Some(match out {
                None => (a, b),
                Some((x, y)) => (x.min(a), y.max(b)),
            });
        }
        out
    };
    if task.source > 0
        && let Some((lo, hi)) = envelope(&chosen)
    {
        for (id, (level, tab)) in &l.by_id {
            if *level == task.target
                && let (Some(a), Some(b)) = tab.bounds(&case.spec)
                && a <= hi
                && b >= lo
            {
                ensure!(
                    seen.contains(id),
                    "table {id} of the target level overlaps the plan but is not part of it"
                );
                obs.class("overlap pulled in");
            }
        }
    }
    let all: Vec<&Tab> = task.inputs.iter().map(|(_, id)| &l.by_id[id].1).collect();
    if let Some((lo, hi)) = envelope(&all) {
        let want = (owned_key(&case.spec, &lo), owned_key(&case.spec, &hi));
        ensure_eq!(task.key_range.as_ref(), Some(&want), "key range of the plan");
    }
    let resolved = resolved.as_ref().map_err(|e| format!("a planned table does not resolve: {e}"))?;
    ensure_eq!(resolved.len(), task.inputs.len(), "resolved tables");
    for ((level, id), (at, sst)) in task.inputs.iter().zip(resolved) {
        let want = l.levels[*level].iter().find(|s| s.id == *id);
        ensure_eq!(Some(sst), want, "resolved table {id}");
        ensure_eq!(at, level, "level of resolved table {id}");
    }
    obs.check();
    Ok(())
}

fn test(case: &PlanCase, obs: &mut Obs) -> TestResult {
    let l = layout(case);
    let cfg = LeveledPlannerConfig {
        l0_trigger: case.l0.0 as usize,
        l0_max_inputs: case.l0.1 as usize,
        l0_max_bytes: case.l0.2.map(usize::from),
        level_thresholds: case.thresholds.iter().map(|t| t.0 as usize).collect(),
        level_max_bytes: case.thresholds.iter().map(|t| t.1.map(usize::from)).collect(),
        max_inputs_per_task: case.max_inputs as usize,
        max_task_bytes: case.max_bytes.map(usize::from),
    };
    let got = v::plan(cfg, &l.levels, case.min_level.map(usize::from));
    check_plan(case, &l, &got, obs)?;

    // Publishing.
    let (remove, target) = match (&got, case.use_plan) {
        (Some((task, Ok(resolved))), true) => (resolved.clone(), task.target),
        _ => {
            let mut picked = Vec::new();
            let mut seen = HashSet::new();
            for (level, idx) in &case.remove {
                if let Some(tabs) = l.levels.get(*level as usize)
                    && !tabs.is_empty()
                {
                    let s = &tabs[*idx as usize % tabs.len()];
                    if seen.insert(s.id) {
                        picked.push((*level as usize, s.clone()));
                    }
                }
            }
            (picked, case.target as usize)
        }
    };
    let outputs: Vec<Sst> = case
        .outputs
        .iter()
        .enumerate()
        .map(|(i, t)| t.sst(&case.spec, 1_000 + i as u64, target))
        .collect();
    let mut wal: Vec<WalRef> = Vec::new();
    let mut seq = 3u64;
    for (gap, f, n) in &case.wal {
        if wal.iter().any(|w| w.file_id == file(*f)) {
            continue;
        }
        seq += 1 + *gap as u64;
        let first = wal.last().map_or(1, |w| w.last + 1);
        wal.push(WalRef {
            seq,
            file_id: file(*f),
            first,
            last: first + *n as u64,
        });
    }
    let out = v::publish(&l.levels, &wal, &remove, &outputs, target as u32)?;

    // The version before, and after the edits.
    let mut setup: Vec<Edit> = l
        .levels
        .iter()
        .enumerate()
        .map(|(i, s)| Edit::Add(i as u32, s.clone()))
        .collect();
    setup.push(Edit::Wal(wal.clone()));
    let before = fold(empty(), &setup).unwrap();
    let after = fold(before.clone(), &out.edits).ok_or("the edits cannot be applied")?;
    let removed: HashSet<u64> = remove.iter().map(|(_, s)| s.id).collect();
    let mut want = before.levels.clone();
    for level in &mut want {
        level.retain(|s| !removed.contains(&s.id));
    }
    if !outputs.is_empty() {
        while want.len() <= target {
            want.push(Vec::new());
        }
        want[target].extend(outputs.clone());
    }
    while want.last().is_some_and(Vec::is_empty) {
        want.pop();
    }
    for level in &mut want {
        level.sort_by_key(|s| s.id);
    }
    ensure_eq!(after.levels, want, "tables after publishing");
    let top = outputs.iter().filter_map(|s| s.stats.as_ref()?.max_ts).max();
    ensure_eq!(after.watermark, top, "newest commit recorded with the outputs");

    // Log segments.
    let kept: HashSet<u64> = after.wal.iter().map(|w| w.seq).collect();
    let mut referenced = HashSet::new();
    let mut unknown = false;
    for s in want.iter().flatten() {
        match &s.wal_ids {
            Some(ids) => referenced.extend(ids.iter().copied()),
            None => unknown = true,
        }
    }
    for w in &wal {
        ensure!(
            !unknown && !referenced.contains(&w.file_id) || kept.contains(&w.seq),
            "log segment {} is still referenced but dropped",
            w.seq
        );
        ensure!(
            kept.contains(&w.seq) != out.gc_wal.contains(w),
            "log segment {}: kept {}, queued for deletion {}",
            w.seq,
            kept.contains(&w.seq),
            out.gc_wal.contains(w)
        );
    }
    ensure!(
        after.wal.iter().chain(&out.gc_wal).all(|w| wal.contains(w)),
        "unknown log segments {:?} {:?}",
        after.wal,
        out.gc_wal
    );
    obs.class_if(!out.gc_wal.is_empty(), "log segment retired");
    obs.class_if(unknown, "unknown log references");

    // Files.
    let mut gone: Vec<_> = remove
        .iter()
        .map(|(level, s)| (*level as u32, s.id, s.data_path.clone(), s.delete_path.clone()))
        .collect();
    let mut queued = out.gc_ssts.clone();
    gone.sort();
    queued.sort();
    ensure_eq!(queued, gone, "tables queued for deletion");
    obs.check();
    obs.nontrivial = got.is_some() || !remove.is_empty() && !wal.is_empty();
    Ok(())
}

pub const PLAN: Gen<PlanCase> = Gen {
    name: "plan",
    rule: "up to five levels of up to 40 tables with known or unknown key bounds, sizes and log \
           references, planner limits, and a compaction outcome to publish; plans, edits and \
           deletion queue compared with the configured limits and the tables; non-trivial: a plan \
           was made, or tables were removed while log segments are tracked",
    strategy,
    test,
};
