//! Which suites decide which property, and how many cases each tier generates.

use serde_json::Value;

use crate::{
    runner::Suite,
    suites::{bounds, compact, conc, db, keys, manifest, mem, misc, plan, pred, scalar, schema, sst, wal},
};

/// Property -> (suite, quick cases, thorough cases).
pub fn plan() -> Vec<(&'static str, Vec<(&'static str, usize, usize)>)> {
    vec![
        ("C01", vec![("db_history", 60_000, 4_000_000), ("db_query", 20_000, 1_000_000), ("db_layers", 3_000, 200_000), ("db_concurrent", 20_000, 1_000_000)]),
        ("C02", vec![("db_crash", 100_000, 5_000_000), ("db_history", 20_000, 1_000_000), ("db_concurrent", 40_000, 2_000_000)]),
        ("C03", vec![("db_snapshot", 40_000, 2_000_000), ("db_concurrent", 20_000, 1_000_000), ("memtable", 30_000, 1_000_000), ("merge", 5_000, 200_000), ("sst", 5_000, 200_000)]),
        ("C04", vec![("db_query", 60_000, 4_000_000), ("predicate", 60_000, 3_000_000), ("db_snapshot", 20_000, 1_000_000), ("db_layers", 4_000, 200_000)]),
        ("C05", vec![("db_txn", 40_000, 2_000_000), ("db_concurrent", 30_000, 1_000_000), ("staged", 200_000, 5_000_000), ("merge", 5_000, 100_000), ("memtable", 20_000, 500_000)]),
        ("C06", vec![("keys", 600_000, 30_000_000)]),
        ("C07", vec![("wal_codec", 80_000, 4_000_000), ("wal_replay", 60_000, 2_000_000)]),
        ("C08", vec![("wal_replay", 150_000, 6_000_000), ("wal_writer", 30_000, 1_000_000)]),
        ("C09", vec![("wal_writer", 80_000, 4_000_000)]),
        ("C10", vec![("wal_gc", 150_000, 6_000_000), ("wal_writer", 40_000, 1_000_000)]),
        ("C11", vec![("memtable", 70_000, 3_000_000)]),
        ("C12", vec![("memtable", 70_000, 3_000_000)]),
        ("C13", vec![("sst", 10_000, 500_000), ("bulk_tables", 300, 10_000)]),
        ("C14", vec![("merge", 8_000, 400_000), ("staged", 100_000, 3_000_000), ("sst", 3_000, 100_000)]),
        ("C15", vec![("compact", 5_000, 300_000), ("db_layers", 5_000, 300_000), ("bulk_tables", 400, 20_000)]),
        ("C16", vec![("manifest", 6_000, 200_000)]),
        ("C17", vec![("plan", 400_000, 20_000_000), ("manifest", 1_500, 40_000)]),
        ("C18", vec![("key_config", 200_000, 10_000_000), ("row_values", 150_000, 5_000_000), ("fingerprint", 150_000, 5_000_000), ("memtable", 20_000, 500_000)]),
        ("C19", vec![("clock", 60_000, 3_000_000)]),
        ("C20", vec![("policy", 500_000, 20_000_000), ("memtable", 40_000, 1_000_000)]),
        ("C21", vec![("bounds", 80_000, 4_000_000), ("scalar", 200_000, 10_000_000), ("predicate", 60_000, 3_000_000), ("rowsets", 400_000, 20_000_000), ("prefix", 1_000_000, 50_000_000)]),
        ("C22", vec![("db_concurrent", 150_000, 8_000_000)]),
    ]
}

static SUITES: &[&dyn Suite] = &[&keys::KEYS, &keys::FLOAT, &bounds::BOUNDS, &bounds::ROWS, &bounds::PREFIX, &mem::MEM, &misc::CLOCK, &misc::POLICY, &schema::SCHEMA, &schema::ROWVALS, &schema::FINGERPRINT, &sst::SST, &sst::MERGE, &sst::STAGED, &sst::STAGED_LIST, #[cfg(feature = "full")] &db::HISTORY, #[cfg(feature = "full")] &db::QUERY, #[cfg(feature = "full")] &db::SNAPSHOT, #[cfg(feature = "full")] &db::TXN, #[cfg(feature = "full")] &db::CRASH, #[cfg(feature = "full")] &db::LAYERS, #[cfg(feature = "full")] &db::STRICT, #[cfg(feature = "full")] &conc::CONC, #[cfg(feature = "full")] &conc::STRICT, #[cfg(feature = "full")] &compact::COMPACT, &compact::BULK, &wal::CODEC, &wal::REPLAY, &wal::GC, &wal::WRITER, &wal::REPAIR, &manifest::MANIFEST, &plan::PLAN, &scalar::SCALAR, #[cfg(feature = "full")] &pred::PRED];

pub fn suite(name: &str) -> Option<&'static dyn Suite> {
    SUITES.iter().copied().find(|s| s.name() == name)
}

/// Open findings committed in `/verif/known-findings.json`.
pub fn known_findings() -> Vec<Value> {
    let path = crate::verif_root().join("known-findings.json");
    std::fs::read_to_string(path)
        .ok()
        .and_then(|text| serde_json::from_str(&text).ok())
        .unwrap_or_default()
}
