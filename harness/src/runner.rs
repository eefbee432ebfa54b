//! Generated-input search: seeded generation, parallel evaluation, shrinking, replay files and
//! evidence.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};

/// What a single evaluation observed.
#[derive(Default)]
pub struct Obs {
    /// Labels describing the case (distribution is reported in the evidence).
    pub classes: Vec<&'static str>,
    /// Whether the case satisfied the suite's non-triviality rule.
    pub nontrivial: bool,
    /// Number of individual oracle comparisons made.
    pub checks: u64,
    /// Inputs skipped because a listed known finding covers them.
    pub excluded: u64,
}

impl Obs {
    pub fn class(&mut self, name: &'static str) {
        if !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }
    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.class(name);
        }
    }
    pub fn check(&mut self) {
        self.checks += 1;
    }
}

/// Wall-clock limit for one case; ordinary cases take milliseconds.
const CASE_LIMIT: Duration = Duration::from_secs(120);

pub type TestResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($left:expr, $right:expr, $($arg:tt)*) => {{
        let (l, r) = (&$left, &$right);
        if *l != *r {
            return Err(format!("{}\n   got: {:?}\n  want: {:?}", format!($($arg)*), l, r));
        }
    }};
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub property: String,
    pub out_dir: std::path::PathBuf,
    pub deadline: Option<Instant>,
    /// Percentage applied to the number of cases (100 unless overridden for experiments).
    pub scale: usize,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub checks: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub excluded: u64,
    pub rules: Vec<String>,
    pub suites: Vec<Value>,
    pub violation: Option<Violation>,
}

pub struct Violation {
    pub suite: String,
    pub message: String,
    pub replay: std::path::PathBuf,
}

pub trait Suite: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, ctx: &Ctx, cases: usize, report: &mut Report);
    fn replay(&self, case: &Value) -> TestResult;
}

/// A suite over one case type.
pub struct Gen<C: 'static> {
    pub name: &'static str,
    pub rule: &'static str,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub test: fn(&C, &mut Obs) -> TestResult,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

/// Run `f`, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let text = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            Err(format!("PANIC: {text}"))
        }
    }
}

fn mix(seed: u64, name: &str, case: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut h = Fnv(0xcbf29ce484222325);
        (seed, name, case, i as u64).hash(&mut h);
        chunk.copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

/// Small stable hasher (the standard one is not guaranteed stable between releases).
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

fn config() -> Config {
    Config {
        failure_persistence: None,
        ..Config::default()
    }
}

fn tree_for<C: std::fmt::Debug>(
    strategy: &BoxedStrategy<C>,
    seed: [u8; 32],
) -> Option<Box<dyn ValueTree<Value = C>>> {
    let mut runner = TestRunner::new_with_rng(
        config(),
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
    );
    strategy.new_tree(&mut runner).ok()
}

impl<C> Suite for Gen<C>
where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn rule(&self) -> &'static str {
        self.rule
    }

    fn replay(&self, case: &Value) -> TestResult {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        guarded(|| (self.test)(&case, &mut Obs::default()))
    }

    fn run(&self, ctx: &Ctx, cases: usize, report: &mut Report) {
        let started = Instant::now();
        let cases = (cases * ctx.scale / 100).max(1);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let failing = AtomicU64::new(u64::MAX);
        let failures: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
        let merged: Mutex<Report> = Mutex::new(Report::default());
        // Which case each worker is evaluating and since when: a case that never comes back is a
        // violation in itself (the code under test stopped making progress).
        let running: Vec<Mutex<Option<(usize, Instant)>>> =
            (0..ctx.threads).map(|_| Mutex::new(None)).collect();
        let finished = AtomicUsize::new(0);
        std::thread::scope(|scope| {
            let (running, finished) = (&running, &finished);
            let so_far = report.evaluations;
            scope.spawn(move || {
                while finished.load(Ordering::Relaxed) < ctx.threads {
                    std::thread::sleep(Duration::from_millis(20));
                    for slot in running {
                        let hung = *slot.lock().unwrap();
                        if let Some((idx, since)) = hung
                            && since.elapsed() > CASE_LIMIT
                        {
                            let strategy = (self.strategy)();
                            let seed = mix(ctx.seed, self.name, idx as u64);
                            let case = tree_for(&strategy, seed)
                                .map(|t| serde_json::to_value(t.current()).unwrap_or(Value::Null));
                            let message = format!("no progress for {} s", CASE_LIMIT.as_secs());
                            let replay = save_replay(ctx, self.name, idx, &message, case);
                            crate::give_up(ctx, Report {
                                evaluations: so_far,
                                violation: Some(Violation {
                                    suite: self.name.to_string(),
                                    message,
                                    replay,
                                }),
                                ..Report::default()
                            });
                        }
                    }
                }
            });
            for worker in 0..ctx.threads {
                let slot = &running[worker];
                let (next, stop, failing) = (&next, &stop, &failing);
                let (failures, merged) = (&failures, &merged);
                let builder = std::thread::Builder::new().stack_size(16 << 20);
                builder
                    .spawn_scoped(scope, move || {
                        struct Done<'a>(&'a AtomicUsize);
                        impl Drop for Done<'_> {
                            fn drop(&mut self) {
                                self.0.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                        let _done = Done(finished);
                        let strategy = (self.strategy)();
                        let mut local = Report::default();
                        loop {
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= cases || idx as u64 > failing.load(Ordering::Relaxed) {
                                break;
                            }
                            if stop.load(Ordering::Relaxed)
                                || ctx.deadline.is_some_and(|d| Instant::now() > d)
                            {
                                break;
                            }
                            let seed = mix(ctx.seed, self.name, idx as u64);
                            let Some(tree) = tree_for(&strategy, seed) else {
                                continue;
                            };
                            let case = tree.current();
                            let mut obs = Obs::default();
                            *slot.lock().unwrap() = Some((idx, Instant::now()));
                            let result = guarded(|| (self.test)(&case, &mut obs));
                            *slot.lock().unwrap() = None;
                            local.evaluations += 1;
                            local.checks += obs.checks;
                            local.excluded += obs.excluded;
                            for c in &obs.classes {
                                *local.classes.entry(format!("{}:{c}", self.name)).or_default() +=
                                    1;
                            }
                            if obs.nontrivial {
                                let mut h = Fnv(7);
                                self.name.hash(&mut h);
                                serde_json::to_string(&case).unwrap_or_default().hash(&mut h);
                                if local.nontrivial.insert(h.finish()) && local.samples.is_empty() {
                                    local.samples.push(sample(self.name, idx, &case));
                                }
                            }
                            if let Err(message) = result {
                                failing.fetch_min(idx as u64, Ordering::Relaxed);
                                failures.lock().unwrap().push((idx, message));
                                break;
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.evaluations += local.evaluations;
                        m.checks += local.checks;
                        m.excluded += local.excluded;
                        m.nontrivial.extend(local.nontrivial);
                        m.samples.extend(local.samples);
                        for (k, v) in local.classes {
                            *m.classes.entry(k).or_default() += v;
                        }
                    })
                    .expect("spawn worker");
            }
        });
        let mut m = merged.into_inner().unwrap();
        m.samples.sort_by_key(|s| s["index"].as_u64());
        report.suites.push(json!({
            "suite": self.name,
            "cases": m.evaluations,
            "requested": cases,
            "nontrivial": m.nontrivial.len(),
            "oracle_checks": m.checks,
            "excluded_as_known": m.excluded,
            "seconds": started.elapsed().as_secs_f64(),
        }));
        report.evaluations += m.evaluations;
        report.checks += m.checks;
        report.excluded += m.excluded;
        report.nontrivial.extend(m.nontrivial);
        report.samples.extend(m.samples.into_iter().take(2));
        for (k, v) in m.classes {
            *report.classes.entry(k).or_default() += v;
        }
        report.rules.push(format!("{}: {}", self.name, self.rule));

        let mut failures = failures.into_inner().unwrap();
        failures.sort();
        if let Some((idx, message)) = failures.into_iter().next() {
            let (case, message) = self.shrink(ctx, idx, message);
            let replay = save_replay(ctx, self.name, idx, &message, Some(case));
            report.violation = Some(Violation {
                suite: self.name.to_string(),
                message,
                replay,
            });
        }
    }
}

fn save_replay(
    ctx: &Ctx,
    suite: &str,
    idx: usize,
    message: &str,
    case: Option<Value>,
) -> std::path::PathBuf {
    let replay = ctx.out_dir.join(format!("{}-{suite}.json", ctx.property));
    let body = json!({
        "property": ctx.property,
        "suite": suite,
        "seed": ctx.seed,
        "case_index": idx,
        "message": message,
        "case": case,
    });
    let _ = std::fs::create_dir_all(&ctx.out_dir);
    let _ = std::fs::write(&replay, serde_json::to_string_pretty(&body).unwrap());
    replay
}

fn sample<C: Serialize>(name: &str, idx: usize, case: &C) -> Value {
    let mut text = serde_json::to_string(case).unwrap_or_default();
    if text.len() > 700 {
        let mut cut = 700;
        while !text.is_char_boundary(cut) {
            cut -= 1;
        }
        text.truncate(cut);
        text.push_str("...");
    }
    json!({"suite": name, "index": idx, "case": text})
}

impl<C> Gen<C>
where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    /// Shrink on a helper thread, so that a candidate that never returns cannot hold up the verdict.
    fn shrink(&self, ctx: &Ctx, idx: usize, message: String) -> (Value, String) {
        let seed = mix(ctx.seed, self.name, idx as u64);
        let (make, test, name) = (self.strategy, self.test, self.name);
        let best = Arc::new(Mutex::new((Value::Null, message)));
        let shared = best.clone();
        let (done, wait) = std::sync::mpsc::channel::<usize>();
        let budget = Duration::from_secs(45);
        let _ = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut tree = tree_for(&make(), seed).expect("failing case regenerates");
            shared.lock().unwrap().0 = serde_json::to_value(tree.current()).unwrap_or(Value::Null);
            let started = Instant::now();
            let mut steps = 0;
            if tree.simplify() {
                loop {
                    steps += 1;
                    if steps > 3000 || started.elapsed() > budget {
                        break;
                    }
                    let candidate = tree.current();
                    match guarded(|| test(&candidate, &mut Obs::default())) {
                        Err(m) => {
                            let value = serde_json::to_value(&candidate).unwrap_or(Value::Null);
                            *shared.lock().unwrap() = (value, m);
                            if !tree.simplify() {
                                break;
                            }
                        }
                        Ok(()) => {
                            if !tree.complicate() {
                                break;
                            }
                        }
                    }
                }
            }
            let _ = done.send(steps);
        });
        let steps = wait.recv_timeout(budget + Duration::from_secs(20));
        eprintln!("[{name}] shrunk: {steps:?} steps");
        let found = best.lock().unwrap().clone();
        found
    }
}
