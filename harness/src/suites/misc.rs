//! Commit clock and sealing rules.

use std::{
    sync::{Arc, Barrier},
    time::Duration,
};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{
    AnyOf, BatchesThreshold, BytesThreshold, Clock, MemStats, NeverSeal, OpenRowsThreshold,
    SealDecision, SealPolicy, TimeElapsedPolicy,
};

use crate::{
    ensure, ensure_eq,
    runner::{Gen, Obs, TestResult},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ClockOp {
    Alloc,
    Advance(u64),
    Peek,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClockCase {
    start: u64,
    /// One list per thread; a single list runs sequentially.
    threads: Vec<Vec<ClockOp>>,
    repeat: u8,
}

fn clock_strategy() -> BoxedStrategy<ClockCase> {
    let op = prop_oneof![
        5 => Just(ClockOp::Alloc),
        3 => (0u64..400).prop_map(ClockOp::Advance),
        1 => (0u64..1_000_000_000).prop_map(ClockOp::Advance),
        1 => Just(ClockOp::Peek),
    ];
    (
        prop_oneof![Just(0u64), 1u64..50, Just(1u64 << 40)],
        prop::collection::vec(prop::collection::vec(op, 1..25), 1..5),
        1u8..12,
    )
        .prop_map(|(start, threads, repeat)| ClockCase {
            start,
            threads,
            repeat,
        })
        .boxed()
}

fn clock_test(case: &ClockCase, obs: &mut Obs) -> TestResult {
    if case.threads.len() == 1 {
        let clock = Clock::new(case.start);
        let mut next = case.start;
        for op in &case.threads[0] {
            match op {
                ClockOp::Alloc => {
                    ensure_eq!(clock.alloc(), next, "allocated timestamp");
                    next += 1;
                }
                ClockOp::Advance(to) => {
                    clock.advance(*to);
                    next = next.max(*to);
                }
                ClockOp::Peek => {}
            }
            ensure_eq!(clock.peek(), next, "next timestamp after {op:?}");
            obs.check();
        }
        obs.class("sequential");
        obs.nontrivial = case.threads[0].len() > 2;
        return Ok(());
    }
    let clock = Clock::new(case.start);
    let barrier = Barrier::new(case.threads.len());
    let results: Vec<Result<Vec<u64>, String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = case
            .threads
            .iter()
            .map(|ops| {
                let (clock, barrier) = (&clock, &barrier);
                scope.spawn(move || {
                    barrier.wait();
                    let mut mine = Vec::new();
                    let mut floor = case.start;
                    for round in 0..case.repeat as u64 {
                        for op in ops {
                            match op {
                                ClockOp::Alloc => {
                                    let got = clock.alloc();
                                    if got < floor {
                                        return Err(format!(
                                            "allocated {got} although {floor} was already passed"
                                        ));
                                    }
                                    floor = got + 1;
                                    mine.push(got);
                                }
                                ClockOp::Advance(to) => {
                                    let to = to.saturating_add(round * 100);
                                    clock.advance(to);
                                    floor = floor.max(to);
                                }
                                ClockOp::Peek => {
                                    let got = clock.peek();
                                    if got < floor {
                                        return Err(format!("peeked {got} below {floor}"));
                                    }
                                    floor = got;
                                }
                            }
                        }
                    }
                    Ok(mine)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
    });
    let mut all = Vec::new();
    for r in results {
        all.extend(r?);
    }
    let n = all.len();
    all.sort_unstable();
    if let Some(w) = all.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("timestamp {} was handed out twice", w[0]));
    }
    if let Some(last) = all.last() {
        ensure!(clock.peek() > *last, "next timestamp {} not above {last}", clock.peek());
    }
    obs.checks += n as u64;
    obs.class("concurrent");
    obs.nontrivial = n > 2;
    Ok(())
}

pub const CLOCK: Gen<ClockCase> = Gen {
    name: "clock",
    rule: "1-4 threads of allocate/advance/peek on one clock; sequential histories against an \
           exact model, concurrent ones for uniqueness and per-thread monotonicity; non-trivial: \
           more than two timestamps handed out",
    strategy: clock_strategy,
    test: clock_test,
};

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rule {
    Never,
    Bytes(usize),
    Rows(usize),
    Batches(usize),
    Millis(u64),
    Any(Vec<Rule>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PolicyCase {
    rule: Rule,
    entries: usize,
    key_bytes: usize,
    overhead: usize,
    inserts: u64,
    replaces: u64,
    rows: Option<usize>,
    batches: Option<usize>,
    batch_bytes: Option<usize>,
    millis: Option<u64>,
}

fn small() -> impl Strategy<Value = usize> {
    prop_oneof![0usize..12, 90usize..140]
}

fn policy_strategy() -> BoxedStrategy<PolicyCase> {
    let leaf = prop_oneof![
        1 => Just(Rule::Never),
        3 => small().prop_map(Rule::Bytes),
        3 => small().prop_map(Rule::Rows),
        3 => small().prop_map(Rule::Batches),
        3 => small().prop_map(|m| Rule::Millis(m as u64)),
    ];
    let rule = leaf.prop_recursive(2, 8, 4, |inner| {
        prop::collection::vec(inner, 0..4).prop_map(Rule::Any)
    });
    (
        rule,
        (0usize..8, small(), 0usize..16),
        (0u64..20, 0u64..20),
        (
            prop::option::weighted(0.8, small()),
            prop::option::weighted(0.8, small()),
            prop::option::of(small()),
            prop::option::weighted(0.8, small()),
        ),
    )
        .prop_map(
            |(rule, (entries, key_bytes, overhead), (inserts, replaces), (rows, batches, batch_bytes, millis))| {
                PolicyCase {
                    rule,
                    entries,
                    key_bytes,
                    overhead,
                    inserts,
                    replaces,
                    rows,
                    batches,
                    batch_bytes,
                    millis: millis.map(|m| m as u64),
                }
            },
        )
        .boxed()
}

fn build(rule: &Rule) -> Arc<dyn SealPolicy + Send + Sync> {
    match rule {
        Rule::Never => Arc::new(NeverSeal),
        Rule::Bytes(limit) => Arc::new(BytesThreshold { limit: *limit }),
        Rule::Rows(rows) => Arc::new(OpenRowsThreshold { rows: *rows }),
        Rule::Batches(batches) => Arc::new(BatchesThreshold { batches: *batches }),
        Rule::Millis(ms) => Arc::new(TimeElapsedPolicy {
            min_interval: Duration::from_millis(*ms),
        }),
        Rule::Any(inner) => Arc::new(AnyOf::new(inner.iter().map(build).collect())),
    }
}

fn fires(rule: &Rule, case: &PolicyCase) -> bool {
    match rule {
        Rule::Never => false,
        Rule::Bytes(limit) => case.key_bytes + case.entries * case.overhead >= *limit,
        Rule::Rows(rows) => case.rows.is_some_and(|n| n >= *rows),
        Rule::Batches(batches) => case.batches.is_some_and(|n| n >= *batches),
        Rule::Millis(ms) => case.millis.is_some_and(|n| n >= *ms),
        Rule::Any(inner) => inner.iter().any(|r| fires(r, case)),
    }
}

fn policy_test(case: &PolicyCase, obs: &mut Obs) -> TestResult {
    let stats = MemStats {
        entries: case.entries,
        inserts: case.inserts,
        replaces: case.replaces,
        approx_key_bytes: case.key_bytes,
        entry_overhead: case.overhead,
        typed_open_rows: case.rows,
        dyn_batches: case.batches,
        dyn_approx_batch_bytes: case.batch_bytes,
        since_last_seal: case.millis.map(Duration::from_millis),
    };
    let decision = build(&case.rule).evaluate(&stats);
    let want = fires(&case.rule, case);
    ensure_eq!(
        matches!(decision, SealDecision::Seal(_)),
        want,
        "decision {decision:?} of {:?} on {stats:?}",
        case.rule
    );
    obs.checks += 1;
    obs.class_if(want, "fires");
    obs.class_if(!want, "does not fire");
    obs.class_if(matches!(case.rule, Rule::Any(_)), "combination");
    obs.nontrivial = !matches!(case.rule, Rule::Never);
    Ok(())
}

pub const POLICY: Gen<PolicyCase> = Gen {
    name: "policy",
    rule: "sealing rules (nested combinations included) on generated figures around their limits; \
           non-trivial: the rule can fire",
    strategy: policy_strategy,
    test: policy_test,
};
