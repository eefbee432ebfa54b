//! Key range algebra, row selections, prefix successors.

use std::collections::BTreeSet;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{self as v, Bounds, Rows};

use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
};

type End = Option<(u8, bool)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    spec: Spec,
    a: (End, End),
    b: (End, End),
    c: (End, End),
}

fn end() -> impl Strategy<Value = End> {
    prop::option::weighted(0.75, (0u8..12, any::<bool>()))
}

fn strategy() -> BoxedStrategy<Case> {
    (spec(), (end(), end()), (end(), end()), (end(), end()))
        .prop_map(|(spec, a, b, c)| Case { spec, a, b, c })
        .boxed()
}

type Ends = (Option<(Key, bool)>, Option<(Key, bool)>);

fn ends(spec: &Spec, e: &(End, End)) -> Ends {
    (
        e.0.map(|(k, i)| (spec.key(k), i)),
        e.1.map(|(k, i)| (spec.key(k), i)),
    )
}

fn bounds(spec: &Spec, e: &Ends) -> Bounds {
    Bounds::new(
        e.0.as_ref().map(|(k, i)| (owned_key(spec, k), *i)),
        e.1.as_ref().map(|(k, i)| (owned_key(spec, k), *i)),
    )
}

fn admits(spec: &Spec, b: &Bounds, key: &Key) -> bool {
    let k = owned_key(spec, key);
    b.overlaps(&k, &k)
}

fn test(case: &Case, obs: &mut Obs) -> TestResult {
    let spec = &case.spec;
    let mut keys: Vec<Key> = (0..27).map(|i| spec.key(i)).collect();
    keys.sort();
    keys.dedup();
    let list = [ends(spec, &case.a), ends(spec, &case.b), ends(spec, &case.c)];
    let made: Vec<Bounds> = list.iter().map(|e| bounds(spec, e)).collect();
    for (e, b) in list.iter().zip(&made) {
        for k in &keys {
            ensure_eq!(admits(spec, b, k), Range::contains(e, k), "range {e:?}, key {k:?}");
            obs.check();
        }
        // Overlap with every segment [min, max].
        for (i, lo) in keys.iter().enumerate() {
            for hi in &keys[i..] {
                let got = b.overlaps(&owned_key(spec, lo), &owned_key(spec, hi));
                let must = keys
                    .iter()
                    .any(|k| k >= lo && k <= hi && Range::contains(e, k));
                ensure!(got || !must, "range {e:?} misses segment [{lo:?},{hi:?}]");
                // The test must not be vacuous either: a segment on the wrong side of an end is
                // rejected.
                let beyond = e.0.as_ref().is_some_and(|(l, inc)| hi < l || (hi == l && !inc))
                    || e.1.as_ref().is_some_and(|(u, inc)| lo > u || (lo == u && !inc));
                ensure!(!(got && beyond), "range {e:?} accepts segment [{lo:?},{hi:?}]");
                obs.check();
            }
        }
        let contradictory = match e {
            (Some((l, li)), Some((u, ui))) => l > u || (l == u && !(*li && *ui)),
            _ => false,
        };
        ensure_eq!(b.is_empty(), contradictory, "emptiness of {e:?}");
        obs.class_if(contradictory, "contradictory range");
    }
    for i in 0..3 {
        for j in 0..3 {
            let both = made[i].intersect(&made[j]);
            let either = made[i].union_envelope(&made[j]);
            for k in &keys {
                let (x, y) = (Range::contains(&list[i], k), Range::contains(&list[j], k));
                ensure_eq!(
                    admits(spec, &both, k),
                    x && y,
                    "intersection of {:?} and {:?} at {k:?}",
                    list[i],
                    list[j]
                );
                if x || y {
                    ensure!(
                        admits(spec, &either, k),
                        "envelope of {:?} and {:?} excludes {k:?}",
                        list[i],
                        list[j]
                    );
                }
                obs.class_if(x && y, "common key");
                obs.class_if(x != y, "key in one only");
                obs.checks += 2;
            }
            if both.is_empty() {
                for k in &keys {
                    ensure!(
                        !(Range::contains(&list[i], k) && Range::contains(&list[j], k)),
                        "intersection of {:?} and {:?} declared empty but has {k:?}",
                        list[i],
                        list[j]
                    );
                }
            }
            let triple = both.intersect(&made[2]);
            for k in &keys {
                ensure_eq!(
                    admits(spec, &triple, k),
                    list[i..=i].iter().chain(&list[j..=j]).chain(&list[2..]).all(|e| Range::contains(e, k)),
                    "triple intersection at {k:?}"
                );
            }
            let wide = either.union_envelope(&made[2]);
            for k in &keys {
                if [i, j, 2].iter().any(|n| Range::contains(&list[*n], k)) {
                    ensure!(admits(spec, &wide, k), "triple envelope excludes {k:?}");
                }
            }
        }
    }
    obs.nontrivial = obs.classes.contains(&"common key") && obs.classes.contains(&"key in one only");
    Ok(())
}

pub const BOUNDS: Gen<Case> = Gen {
    name: "bounds",
    rule: "three key ranges with inclusive/exclusive/open ends over a generated key layout, \
           membership of every pool key; non-trivial: some pair shares a key and differs on another",
    strategy,
    test,
};

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RowsCase {
    total: usize,
    cuts: Vec<Vec<(usize, usize)>>,
}

fn rows_strategy() -> BoxedStrategy<RowsCase> {
    (
        0usize..40,
        prop::collection::vec(prop::collection::vec((0usize..6, 0usize..9), 0..6), 2..=3),
    )
        .prop_map(|(total, cuts)| RowsCase { total, cuts })
        .boxed()
}

fn rows_test(case: &RowsCase, obs: &mut Obs) -> TestResult {
    let total = case.total;
    let mut sets: Vec<(Rows, BTreeSet<usize>)> = vec![
        (Rows::all(total), (0..total).collect()),
        (Rows::none(total), BTreeSet::new()),
    ];
    for cut in &case.cuts {
        let mut pos = 0;
        let mut ranges = Vec::new();
        let mut want = BTreeSet::new();
        for (skip, take) in cut {
            let start = (pos + skip).min(total);
            let end = (start + take).min(total);
            if start < end {
                ranges.push(start..end);
                want.extend(start..end);
            }
            pos = end;
        }
        sets.push((Rows::from_ranges(total, ranges), want));
    }
    for (set, want) in &sets {
        check_set(set, want, total)?;
        let again = set.reinterpret(total)?;
        check_set(&again, want, total)?;
        ensure!(set.reinterpret(total + 1).is_err(), "row count mismatch accepted");
        obs.class_if(!want.is_empty() && want.len() < total, "partial set");
        obs.checks += 5;
    }
    for (a, wa) in &sets {
        for (b, wb) in &sets {
            check_set(&a.intersect(b)?, &wa.intersection(wb).copied().collect(), total)
                .map_err(|e| format!("intersection of {wa:?} and {wb:?}: {e}"))?;
            check_set(&a.union(b)?, &wa.union(wb).copied().collect(), total)
                .map_err(|e| format!("union of {wa:?} and {wb:?}: {e}"))?;
            obs.checks += 10;
        }
        ensure!(
            a.intersect(&Rows::all(total + 1)).is_err() && a.union(&Rows::all(total + 1)).is_err(),
            "sets over different row counts combined"
        );
    }
    obs.nontrivial = obs.classes.contains(&"partial set");
    Ok(())
}

fn check_set(set: &Rows, want: &BTreeSet<usize>, total: usize) -> TestResult {
    let ids: Vec<usize> = want.iter().copied().collect();
    ensure_eq!(set.ids(), ids, "selected rows");
    ensure_eq!(set.len(), ids.len(), "selected count");
    ensure_eq!(set.total(), total, "universe");
    ensure_eq!(set.is_empty(), ids.is_empty(), "emptiness");
    ensure_eq!(set.is_full(), ids.len() == total, "fullness");
    match set.pushed_down() {
        Some(n) => ensure_eq!(n, ids.len(), "rows kept by the pushed-down selection"),
        None => ensure_eq!(ids.len(), total, "no selection pushed down although rows are excluded"),
    }
    Ok(())
}

pub const ROWS: Gen<RowsCase> = Gen {
    name: "rowsets",
    rule: "row selections built from generated skip/take runs over 0..40 rows; non-trivial: some \
           set is neither empty nor full",
    strategy: rows_strategy,
    test: rows_test,
};

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PrefixCase {
    prefix: String,
    others: Vec<String>,
}

fn prefix_strategy() -> BoxedStrategy<PrefixCase> {
    let ch = prop_oneof![
        4 => prop::char::range('a', 'c'),
        2 => Just('\u{10FFFF}'),
        1 => Just('\u{D7FF}'),
        1 => Just('\u{E000}'),
        1 => Just('\0'),
        1 => Just('\u{7f}'),
        1 => any::<char>(),
    ];
    (
        prop::collection::vec(ch.clone(), 0..5),
        prop::collection::vec(prop::collection::vec(ch, 0..4), 1..8),
    )
        .prop_map(|(p, o)| PrefixCase {
            prefix: p.into_iter().collect(),
            others: o.into_iter().map(|c| c.into_iter().collect()).collect(),
        })
        .boxed()
}

fn prefix_test(case: &PrefixCase, obs: &mut Obs) -> TestResult {
    let next = v::next_prefix(&case.prefix);
    let exhausted = case.prefix.chars().all(|c| c == char::MAX);
    ensure_eq!(next.is_none(), exhausted, "upper bound for {:?}", case.prefix);
    obs.class_if(exhausted, "no upper bound");
    if let Some(next) = next {
        for other in &case.others {
            let with = format!("{}{other}", case.prefix);
            ensure!(with < next, "{with:?} starts with {:?} but is not below {next:?}", case.prefix);
            // Tightness: strings at or above the bound do not carry the prefix, and strings in
            // [prefix, next) do.
            if *other >= case.prefix && *other < next {
                ensure!(
                    other.starts_with(&case.prefix),
                    "{other:?} lies in [{:?}, {next:?}) without the prefix",
                    case.prefix
                );
            }
            obs.checks += 2;
        }
        obs.nontrivial = !case.prefix.is_empty();
    }
    Ok(())
}

pub const PREFIX: Gen<PrefixCase> = Gen {
    name: "prefix",
    rule: "prefixes and continuations over ASCII, surrogate-gap and maximum code points; \
           non-trivial: non-empty prefix with an upper bound",
    strategy: prefix_strategy,
    test: prefix_test,
};
