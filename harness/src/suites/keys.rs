//! Key order, equality, hashing and persisted form.

use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{self as v, KeyOwned, KeyRow};

use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Part {
    Pool(u8),
    Raw(u64),
    Text(String),
    Bytes(Vec<u8>),
}

fn part_val(ty: Ty, part: &Part) -> Val {
    match (ty, part) {
        (_, Part::Pool(i)) => pool(ty, *i as usize),
        (Ty::Bool, p) => Val::Bool(raw(p) % 2 == 0),
        (Ty::I32, p) => Val::I(raw(p) as i32 as i64),
        (Ty::I64, p) => Val::I(raw(p) as i64),
        (Ty::U32, p) => Val::U(raw(p) as u32 as u64),
        (Ty::U64, p) => Val::U(raw(p)),
        (Ty::F32, p) => {
            let f = f32::from_bits(raw(p) as u32);
            Val::F(if f.is_nan() { f64::NAN } else { f as f64 })
        }
        (Ty::F64, p) => {
            let f = f64::from_bits(raw(p));
            Val::F(if f.is_nan() { f64::NAN } else { f })
        }
        (Ty::Str | Ty::LStr, Part::Text(s)) => Val::S(s.clone()),
        (Ty::Str | Ty::LStr, p) => Val::S(format!("{:x}", raw(p))),
        (Ty::Bin | Ty::LBin, Part::Bytes(b)) => Val::B(b.clone()),
        (Ty::Bin | Ty::LBin, Part::Text(s)) => Val::B(s.clone().into_bytes()),
        (Ty::Fsb, p) => Val::B(raw(p).to_be_bytes()[..3].to_vec()),
        (Ty::Bin | Ty::LBin, p) => Val::B(raw(p).to_be_bytes().to_vec()),
        (Ty::List | Ty::I8 | Ty::I16 | Ty::U8 | Ty::U16 | Ty::Date | Ty::Time | Ty::Stamp, _) => unreachable!(),
    }
}

fn raw(part: &Part) -> u64 {
    match part {
        Part::Pool(i) => *i as u64,
        Part::Raw(r) => *r,
        Part::Text(s) => s.bytes().fold(0, |a, b| a * 31 % (1 << 40) + b as u64),
        Part::Bytes(b) => b.iter().fold(0, |a, b| a * 31 % (1 << 40) + *b as u64),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tys: Vec<Ty>,
    keys: Vec<Vec<Part>>,
    ts: Vec<u64>,
}

fn part() -> impl Strategy<Value = Part> {
    prop_oneof![
        4 => (0u8..12).prop_map(Part::Pool),
        2 => prop_oneof![any::<u64>(), (0u64..6), Just(u64::MAX), any::<u32>().prop_map(|x| x as u64)].prop_map(Part::Raw),
        2 => "[a-c\\x00é\u{10000}]{0,4}".prop_map(Part::Text),
        1 => prop::collection::vec(prop_oneof![Just(0u8), Just(255u8), any::<u8>()], 0..5).prop_map(Part::Bytes),
    ]
}

fn strategy() -> BoxedStrategy<Case> {
    (
        prop::collection::vec(key_ty(), 1..=3),
        prop::collection::vec(prop::collection::vec(part(), 3), 3..=5),
        prop::collection::vec(prop_oneof![0u64..4, any::<u64>()], 5),
    )
        .prop_map(|(tys, keys, ts)| Case { tys, keys, ts })
        .boxed()
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn test(case: &Case, obs: &mut Obs) -> TestResult {
    let spec = Spec {
        cols: case
            .tys
            .iter()
            .map(|ty| Col {
                ty: *ty,
                nullable: false,
            })
            .collect(),
        keys: (0..case.tys.len()).collect(),
        salt: 0,
    };
    let vals: Vec<Key> = case
        .keys
        .iter()
        .map(|k| {
            case.tys
                .iter()
                .zip(k)
                .map(|(ty, p)| part_val(*ty, p))
                .collect()
        })
        .collect();
    let owned: Vec<KeyOwned> = vals.iter().map(|k| owned_key(&spec, k)).collect();
    let rows: Vec<KeyRow> = owned
        .iter()
        .map(|k| KeyRow::from_owned(k).map_err(|e| e.to_string()))
        .collect::<Result<_, _>>()?;
    let cfg = spec.config();
    let batch = spec.batch(&vals);
    let projected = v::project_keys(&cfg, &batch)?;
    ensure_eq!(projected.len(), owned.len(), "projection returned a different row count");

    for (i, a) in owned.iter().enumerate() {
        let got = key_vals(a);
        ensure!(same_row(&got, &vals[i]), "key does not hold its values: {got:?} vs {:?}", vals[i]);
        let got = key_vals(&projected[i]);
        ensure!(same_row(&got, &vals[i]), "projected key differs: {got:?} vs {:?}", vals[i]);
        ensure_eq!(rows[i].to_owned(), *a, "borrowed key does not convert back");
        ensure_eq!(KeyOwned::from(&rows[i]), *a, "key row conversion changed the key");
        ensure_eq!(a.len(), case.tys.len(), "component count");
        let heap: usize = vals[i]
            .iter()
            .map(|v| match v {
                Val::S(s) => s.len(),
                Val::B(b) => b.len(),
                _ => 0,
            })
            .sum();
        ensure_eq!(v::key_heap_size(a), Some(heap), "heap size of {:?}", vals[i]);
        if persistable_key(&spec, &vals[i]) {
            let text = serde_json::to_string(a).map_err(|e| e.to_string())?;
            let back: KeyOwned = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            ensure_eq!(back, *a, "persisted key reads back different");
            ensure!(
                same_row(&key_vals(&back), &vals[i]),
                "persisted key reads back {:?} for {:?}",
                key_vals(&back),
                vals[i]
            );
            for (j, b) in owned.iter().enumerate() {
                ensure_eq!(back.cmp(b), vals[i].cmp(&vals[j]), "persisted key orders differently");
            }
        } else {
            obs.class("float without exact persisted form");
            obs.excluded += 1;
        }
        for (j, b) in owned.iter().enumerate() {
            let want = vals[i].cmp(&vals[j]);
            let what = || format!("{:?} vs {:?}", vals[i], vals[j]);
            ensure_eq!(a.cmp(b), want, "owned order, {}", what());
            ensure_eq!(a.partial_cmp(b), Some(want), "owned partial order, {}", what());
            ensure_eq!(a == b, want == Ordering::Equal, "owned equality, {}", what());
            ensure_eq!(rows[i].cmp(&rows[j]), want, "borrowed order, {}", what());
            ensure_eq!(rows[i] == rows[j], want == Ordering::Equal, "borrowed equality, {}", what());
            ensure_eq!(rows[i].partial_cmp(b), Some(want), "borrowed/owned order, {}", what());
            ensure_eq!(a.partial_cmp(&rows[j]), Some(want), "owned/borrowed order, {}", what());
            ensure_eq!(rows[i] == *b, want == Ordering::Equal, "borrowed/owned equality, {}", what());
            ensure_eq!(*a == rows[j], want == Ordering::Equal, "owned/borrowed equality, {}", what());
            ensure_eq!(projected[i].cmp(b), want, "extracted key order, {}", what());
            if want == Ordering::Equal {
                ensure_eq!(hash_of(a), hash_of(b), "hash of equal keys, {}", what());
                ensure_eq!(hash_of(&rows[i]), hash_of(a), "hash of borrowed and owned, {}", what());
                obs.class_if(i != j, "equal pair");
            } else {
                obs.class("distinct pair");
                let prefix = vals[i].first() == vals[j].first();
                obs.class_if(prefix, "shared first component");
            }
            let (ta, tb) = (case.ts[i], case.ts[j]);
            let want_ts = want.then(tb.cmp(&ta));
            ensure_eq!(v::view_cmp(a, ta, b, tb), want_ts, "versioned order, {} @{ta},{tb}", what());
            ensure_eq!(v::owned_ts_cmp(a, ta, b, tb), want_ts, "owned versioned order, {}", what());
            ensure_eq!(
                v::view_eq(a, ta, b, tb),
                want_ts == Ordering::Equal,
                "versioned equality, {} @{ta},{tb}",
                what()
            );
            obs.checks += 13;
        }
    }
    // Composite keys: a strict prefix orders before its extensions.
    if case.tys.len() > 1 {
        let first = Spec {
            cols: vec![spec.cols[0].clone()],
            keys: vec![0],
            salt: 0,
        };
        let short = owned_key(&first, &vals[0][..1]);
        ensure_eq!(short.cmp(&owned[0]), Ordering::Less, "prefix key orders first");
        ensure!(short != owned[0], "prefix key equals its extension");
    }
    // The crate's order sorts exactly as the model's does.
    let mut idx: Vec<usize> = (0..owned.len()).collect();
    idx.sort_by(|a, b| owned[*a].cmp(&owned[*b]));
    ensure!(
        idx.windows(2).all(|w| vals[w[0]] <= vals[w[1]]),
        "sorting by key gives {:?}",
        idx.iter().map(|i| &vals[*i]).collect::<Vec<_>>()
    );
    obs.nontrivial = obs.classes.contains(&"distinct pair");
    Ok(())
}

pub const KEYS: Gen<Case> = Gen {
    name: "keys",
    rule: "3-5 keys of one generated key layout (1-3 components of 9 types, pool values and raw \
           bit patterns); non-trivial: at least one pair of distinct keys",
    strategy,
    test,
};

/// The persisted form of a float key, without excluding the values of KF-float-json.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FloatCase {
    bits: u64,
}

fn float_test(case: &FloatCase, obs: &mut Obs) -> TestResult {
    obs.nontrivial = true;
    let key = KeyOwned::from(f64::from_bits(case.bits));
    let text = serde_json::to_string(&key).map_err(|e| e.to_string())?;
    let back: KeyOwned =
        serde_json::from_str(&text).map_err(|e| format!("{text} cannot be read back: {e}"))?;
    ensure_eq!(back, key, "persisted key reads back different");
    Ok(())
}

/// Replays the listed finding KF-float-json; not part of any plan.
pub const FLOAT: Gen<FloatCase> = Gen {
    name: "persisted_float",
    rule: "one f64 key",
    strategy: || any::<u64>().prop_map(|bits| FloatCase { bits }).boxed(),
    test: float_test,
};
