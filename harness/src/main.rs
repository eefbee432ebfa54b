//! Property-based checks for tonbo. `tonbo-verif <PROPERTY>` runs the check of one property,
//! `tonbo-verif replay <FILE>` re-runs a saved counterexample.
#![allow(clippy::type_complexity)]

mod model;
mod registry;
#[macro_use]
mod runner;
mod sim;
mod suites;

use std::{path::PathBuf, process::exit, time::Instant};

use serde_json::{Value, json};

use crate::runner::{Ctx, Report};

fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn main() {
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("replay") => replay(&args[1]),
        Some("list") => {
            for (p, _) in registry::plan() {
                println!("{p}");
            }
        }
        Some("suite") => one_suite(&args[1], args[2].parse().unwrap()),
        Some(property) => check(property),
        None => {
            eprintln!("usage: tonbo-verif <PROPERTY> | replay <FILE> | suite <NAME> <CASES>");
            exit(2);
        }
    }
}

fn context(property: &str) -> Ctx {
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    Ctx {
        seed,
        thorough,
        threads,
        property: property.to_string(),
        out_dir: verif_root().join("evidence").join("replay"),
        deadline: None,
        scale: std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(100),
    }
}

fn one_suite(name: &str, cases: usize) {
    let ctx = context("DEV");
    let suite = registry::suite(name).unwrap_or_else(|| {
        eprintln!("unknown suite {name}");
        exit(2)
    });
    let mut report = Report::default();
    suite.run(&ctx, cases, &mut report);
    println!("{}", serde_json::to_string_pretty(&report.suites).unwrap());
    for (k, v) in &report.classes {
        println!("  {k}: {v}");
    }
    if let Some(v) = report.violation {
        println!("FAIL {} {}\n{}", v.suite, v.replay.display(), v.message);
        exit(1);
    }
}

fn replay(file: &str) {
    let body: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
        .expect("replay json");
    let suite = registry::suite(body["suite"].as_str().unwrap()).expect("suite");
    match suite.replay(&body["case"]) {
        Ok(()) => println!("replay passes"),
        Err(message) => {
            println!("{message}");
            println!(
                "VIOLATION property={} replay={file}",
                body["property"].as_str().unwrap_or("?")
            );
            exit(1);
        }
    }
}

/// A hang anywhere is an error of the check, not a verdict: give up before the caller does.
fn watchdog(limit: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("check did not finish within {limit} s");
        exit(3);
    });
}

fn check(property: &str) {
    let ctx = context(property);
    let started = Instant::now();
    let plan = registry::plan();
    let Some((_, suites)) = plan.iter().find(|(p, _)| *p == property) else {
        eprintln!("unknown property {property}");
        exit(2);
    };
    watchdog(if ctx.thorough { 6 * 3600 } else { 800 });
    let mut report = Report::default();
    for (name, quick, thorough) in suites {
        // Suites that need the whole database are absent from the sliced build.
        let Some(suite) = registry::suite(name) else {
            continue;
        };
        let cases = if ctx.thorough { *thorough } else { *quick };
        suite.run(&ctx, cases, &mut report);
        if report.violation.is_some() {
            break;
        }
    }
    let mut known = 0;
    if report.violation.is_none() {
        for finding in registry::known_findings() {
            if finding["property"] != property || finding["status"] != "open" {
                continue;
            }
            let suite = registry::suite(finding["suite"].as_str().unwrap_or(""));
            let Some(suite) = suite else { continue };
            if suite.replay(&finding["case"]).is_err() {
                known += 1;
                println!(
                    "KNOWN-FINDING: property={property} {}",
                    finding["what"].as_str().unwrap_or("")
                );
            }
        }
    }
    write_evidence(&ctx, &report, started.elapsed().as_secs_f64(), known);
    println!(
        "{property}: {} cases, {} distinct non-trivial, {} oracle comparisons, {:.1} s",
        report.evaluations,
        report.nontrivial.len(),
        report.checks,
        started.elapsed().as_secs_f64()
    );
    for s in &report.suites {
        println!("  {s}");
    }
    if let Some(v) = report.violation {
        println!("{}: {}", v.suite, v.message);
        println!("VIOLATION property={property} replay={}", v.replay.display());
        exit(1);
    }
}

/// Report a violation from a suite that cannot be completed, and leave.
pub fn give_up(ctx: &Ctx, report: Report) -> ! {
    write_evidence(ctx, &report, 0.0, 0);
    if let Some(v) = report.violation {
        println!("{}: {}", v.suite, v.message);
        println!("VIOLATION property={} replay={}", ctx.property, v.replay.display());
    }
    exit(1);
}

fn write_evidence(ctx: &Ctx, report: &Report, wall: f64, known: u64) {
    let violations: Vec<Value> = report
        .violation
        .iter()
        .map(|v| {
            json!({
                "suite": v.suite,
                "message": v.message,
                "replay": v.replay.display().to_string(),
            })
        })
        .collect();
    let body = json!({
        "property": ctx.property,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": report.evaluations,
            "distinct_nontrivial": report.nontrivial.len(),
            "rule": report.rules.join(" | "),
            "samples": report.samples,
            "oracle_comparisons": report.checks,
            "excluded_as_known": report.excluded,
            "classes": report.classes,
            "suites": report.suites,
            "build": if cfg!(feature = "full") { "full database" } else { "subsystems only" },
        },
        "known_findings": known,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", ctx.property));
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()) {
        eprintln!("cannot write {}: {e}", path.display());
        exit(2);
    }
}
