//! Schema and key configuration, row materialisation, fingerprints.

use std::{collections::HashMap, sync::Arc};

use arrow_array::RecordBatch;
use arrow_schema::{DataType, Field, Schema, SchemaRef, TimeUnit};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{self as v, DynModeConfig, SchemaBuilder};

use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
};

const NAMES: [&str; 12] = [
    "id", "a", "b", "ts", "Id", "a b", "é", "k0", "x,y", "q\"t", "[z]", " pad",
];

const TYPES: usize = 16;

fn data_type(n: u8) -> (DataType, bool) {
    // Second: usable as a key component.
    match n as usize % TYPES {
        0 => (DataType::Int64, true),
        1 => (DataType::Utf8, true),
        2 => (DataType::Boolean, true),
        3 => (DataType::Int32, true),
        4 => (DataType::UInt32, true),
        5 => (DataType::UInt64, true),
        6 => (DataType::Float32, true),
        7 => (DataType::Float64, true),
        8 => (DataType::Binary, true),
        9 => (DataType::LargeUtf8, true),
        10 => (DataType::LargeBinary, true),
        11 => (DataType::FixedSizeBinary(4), true),
        12 => (DataType::Timestamp(TimeUnit::Millisecond, None), false),
        13 => (DataType::List(Arc::new(Field::new("item", DataType::Int64, true))), false),
        14 => (
            DataType::Struct(vec![Field::new("f", DataType::Int64, true)].into()),
            false,
        ),
        _ => (DataType::Date32, false),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FieldSpec {
    name: u8,
    ty: u8,
    nullable: bool,
    /// `tonbo.key` marker.
    mark: Mark,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mark {
    None,
    Ordinal(u32),
    True,
    Other,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Declare {
    /// Builder with these field numbers (may point past the schema: unknown column).
    Builder { parts: Vec<u8>, incremental: bool, metadata: bool },
    Column(usize),
    Name(u8),
    /// Field markers only.
    Markers,
    /// Schema-level list, plain name when `json` is false.
    SchemaList { parts: Vec<u8>, json: bool },
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    fields: Vec<FieldSpec>,
    declare: Declare,
}

fn field() -> impl Strategy<Value = FieldSpec> {
    (
        0u8..NAMES.len() as u8,
        prop_oneof![3 => 0u8..12, 1 => 0u8..16],
        any::<bool>(),
        prop_oneof![
            3 => Just(Mark::None),
            3 => (0u32..12).prop_map(Mark::Ordinal),
            1 => Just(Mark::True),
            1 => Just(Mark::Other)
        ],
    )
        .prop_map(|(name, ty, nullable, mark)| FieldSpec {
            name,
            ty,
            nullable,
            mark,
        })
}

fn strategy() -> BoxedStrategy<Case> {
    let declare = prop_oneof![
        4 => (prop::collection::vec(0u8..6, 0..4), any::<bool>(), any::<bool>())
            .prop_map(|(parts, incremental, metadata)| Declare::Builder { parts, incremental, metadata }),
        1 => (0usize..7).prop_map(Declare::Column),
        1 => (0u8..7).prop_map(Declare::Name),
        3 => Just(Declare::Markers),
        3 => (prop::collection::vec(0u8..6, 1..4), any::<bool>())
            .prop_map(|(parts, json)| Declare::SchemaList { parts, json }),
        1 => Just(Declare::Nothing),
    ];
    (prop::collection::vec(field(), 1..6), declare)
        .prop_map(|(mut fields, declare)| {
            // Distinct names; the index disambiguates.
            let mut seen = Vec::new();
            for f in &mut fields {
                while seen.contains(&f.name) {
                    f.name = (f.name + 1) % NAMES.len() as u8;
                }
                seen.push(f.name);
            }
            Case { fields, declare }
        })
        .boxed()
}

fn name_of(case: &Case, part: u8) -> String {
    case.fields
        .get(part as usize)
        .map(|f| NAMES[f.name as usize].to_string())
        .unwrap_or_else(|| format!("missing{part}"))
}

fn arrow_schema(case: &Case, marks: bool, meta: HashMap<String, String>) -> SchemaRef {
    Arc::new(Schema::new_with_metadata(
        case.fields
            .iter()
            .map(|f| {
                let field = Field::new(NAMES[f.name as usize], data_type(f.ty).0, f.nullable);
                let mark = match f.mark {
                    Mark::None => None,
                    Mark::Ordinal(n) => Some(n.to_string()),
                    Mark::True => Some("true".to_string()),
                    Mark::Other => Some("no".to_string()),
                };
                match mark {
                    Some(m) if marks => {
                        field.with_metadata(HashMap::from([("tonbo.key".to_string(), m)]))
                    }
                    _ => field,
                }
            })
            .collect::<Vec<_>>(),
        meta,
    ))
}

/// Columns that must be the key, or `None` when the declaration is invalid.
fn resolve(case: &Case, parts: &[u8]) -> Option<Vec<usize>> {
    if parts.is_empty() {
        return None;
    }
    let idx: Vec<usize> = parts.iter().map(|p| *p as usize).collect();
    if idx.iter().any(|i| *i >= case.fields.len()) {
        return None;
    }
    idx.iter().all(|i| data_type(case.fields[*i].ty).1).then_some(idx)
}

fn test(case: &Case, obs: &mut Obs) -> TestResult {
    let plain = || arrow_schema(case, false, HashMap::new());
    let (result, want): (Result<DynModeConfig, String>, Option<Vec<usize>>) = match &case.declare {
        Declare::Builder {
            parts,
            incremental,
            metadata,
        } => {
            let mut parts = parts.clone();
            dedup(&mut parts);
            let names: Vec<String> = parts.iter().map(|p| name_of(case, *p)).collect();
            let mut b = SchemaBuilder::from_schema(plain());
            if *incremental {
                for n in &names {
                    b = b.add_key_part(n.clone());
                }
            } else if names.len() == 1 {
                b = b.composite_key(["other", "keys"]).primary_key(names[0].clone());
            } else {
                b = b.primary_key("other").composite_key(names.clone());
            }
            if *metadata {
                b = b.with_metadata();
            }
            let built = b.build().map_err(|e| e.to_string());
            let want = resolve(case, &parts);
            if let (Ok(cfg), true, Some(want)) = (&built, *metadata, &want) {
                // What the builder wrote into the metadata reads back as the same key.
                let again = DynModeConfig::from_schema(cfg.schema())
                    .map_err(|e| format!("declared key {names:?} does not read back: {e}"))?;
                ensure_eq!(v::key_indices(&again), *want, "key read back from metadata of {names:?}");
                obs.class("metadata round trip");
            }
            (built, want)
        }
        Declare::Column(c) => (
            DynModeConfig::from_key_col(plain(), *c).map_err(|e| e.to_string()),
            resolve(case, &[*c as u8]),
        ),
        Declare::Name(p) => (
            DynModeConfig::from_key_name(plain(), &name_of(case, *p)).map_err(|e| e.to_string()),
            resolve(case, &[*p]),
        ),
        Declare::Markers => {
            let schema = arrow_schema(case, true, HashMap::new());
            let marked: Vec<(usize, &Mark)> = case
                .fields
                .iter()
                .enumerate()
                .map(|(i, f)| (i, &f.mark))
                .filter(|(_, m)| matches!(m, Mark::Ordinal(_) | Mark::True))
                .collect();
            let want = if marked.len() == 1 {
                resolve(case, &[marked[0].0 as u8])
            } else if marked.is_empty() || marked.iter().any(|(_, m)| **m == Mark::True) {
                None
            } else {
                let mut order: Vec<(u32, u8)> = marked
                    .iter()
                    .map(|(i, m)| match m {
                        Mark::Ordinal(n) => (*n, *i as u8),
                        _ => unreachable!(),
                    })
                    .collect();
                order.sort();
                if order.windows(2).any(|w| w[0].0 == w[1].0) {
                    // Repeated ordinals have no declared order.
                    let _ = DynModeConfig::from_metadata(schema);
                    obs.class("ambiguous ordinals");
                    return Ok(());
                }
                resolve(case, &order.iter().map(|o| o.1).collect::<Vec<_>>())
            };
            (DynModeConfig::from_metadata(schema).map_err(|e| e.to_string()), want)
        }
        Declare::SchemaList { parts, json } => {
            let mut parts = parts.clone();
            dedup(&mut parts);
            let names: Vec<String> = parts.iter().map(|p| name_of(case, *p)).collect();
            let (text, parts) = if *json {
                (serde_json::to_string(&names).unwrap(), parts)
            } else {
                let plain = names[0].clone();
                if plain != plain.trim() || plain.contains(['"', '[', ',']) {
                    // A bare name with list syntax in it is not a well-formed declaration.
                    return Ok(());
                }
                (plain, parts[..1].to_vec())
            };
            let schema = arrow_schema(
                case,
                false,
                HashMap::from([("tonbo.keys".to_string(), text)]),
            );
            (
                DynModeConfig::from_metadata(schema).map_err(|e| e.to_string()),
                resolve(case, &parts),
            )
        }
        Declare::Nothing => (
            DynModeConfig::from_metadata(plain()).map_err(|e| e.to_string()),
            None,
        ),
    };
    obs.check();
    match (&result, &want) {
        (Ok(cfg), Some(want)) => {
            ensure_eq!(v::key_indices(cfg), *want, "key columns for {:?}", case.declare);
            let schema = cfg.schema();
            let key_schema = v::key_schema(cfg);
            ensure_eq!(key_schema.fields().len(), want.len(), "key schema width");
            for (i, col) in want.iter().enumerate() {
                ensure_eq!(key_schema.field(i), schema.field(*col), "key schema field {i}");
            }
            ensure_eq!(
                schema.fields().iter().map(|f| f.name().clone()).collect::<Vec<_>>(),
                case.fields.iter().map(|f| NAMES[f.name as usize].to_string()).collect::<Vec<_>>(),
                "schema fields"
            );
            obs.class("accepted");
            obs.nontrivial = true;
        }
        (Ok(cfg), None) => {
            return Err(format!(
                "invalid declaration {:?} accepted with key columns {:?}",
                case.declare,
                v::key_indices(cfg)
            ));
        }
        (Err(e), Some(want)) => {
            return Err(format!("valid declaration {:?} of columns {want:?} rejected: {e}", case.declare));
        }
        (Err(_), None) => obs.class("rejected"),
    }
    Ok(())
}

fn dedup(parts: &mut Vec<u8>) {
    let mut seen = Vec::new();
    parts.retain(|p| {
        let fresh = !seen.contains(p);
        seen.push(*p);
        fresh
    });
}

pub const SCHEMA: Gen<Case> = Gen {
    name: "key_config",
    rule: "schemas of 1-5 fields over 16 types with builder, column, name, field-marker and \
           schema-metadata key declarations; non-trivial: the declaration is valid",
    strategy,
    test,
};

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RowCase {
    spec: Spec,
    rows: Vec<(u8, u32)>,
    change: u8,
}

fn row_strategy() -> BoxedStrategy<RowCase> {
    (
        spec(),
        prop::collection::vec((0u8..27, 0u32..400), 1..6),
        any::<u8>(),
    )
        .prop_map(|(spec, rows, change)| RowCase { spec, rows, change })
        .boxed()
}

fn row_test(case: &RowCase, obs: &mut Obs) -> TestResult {
    let spec = &case.spec;
    let cfg = spec.config();
    let rows: Vec<Row> = case.rows.iter().map(|(k, s)| spec.row(*k, *s)).collect();
    for sliced in [false, true] {
        let batch = if sliced { spec.sliced_batch(&rows) } else { spec.batch(&rows) };
        let keys = v::project_keys(&cfg, &batch)?;
        ensure_eq!(keys.len(), rows.len(), "extracted keys");
        // Reading a whole row back knows the plain types only, and says so.
        let plain = [
            Ty::Bool,
            Ty::I32,
            Ty::I64,
            Ty::U32,
            Ty::U64,
            Ty::F32,
            Ty::F64,
            Ty::Str,
            Ty::Bin,
        ];
        let exotic = spec.cols.iter().any(|c| !plain.contains(&c.ty));
        for (i, row) in rows.iter().enumerate() {
            let got = key_vals(&keys[i]);
            ensure!(same_row(&got, &spec.key_of(row)), "key of {row:?} is {got:?}");
            match v::row_from_batch(&batch, i) {
                Ok(got) => {
                    let got = row_vals(&got);
                    ensure!(same_row(&got, row), "row {row:?} reads back {got:?}");
                }
                Err(e) => ensure!(exotic, "row {row:?} cannot be read: {e}"),
            }
            obs.class_if(row.iter().any(|v| matches!(v, Val::Null)), "null value");
            obs.checks += 2;
        }
        ensure!(v::row_from_batch(&batch, rows.len()).is_err(), "row past the end accepted");
    }
    // Any other schema is rejected.
    let batch = spec.batch(&rows);
    let n = spec.cols.len();
    let col = case.change as usize % n;
    let mut fields: Vec<Field> = batch.schema().fields().iter().map(|f| f.as_ref().clone()).collect();
    let mut columns = batch.columns().to_vec();
    let kind = case.change as usize / n % 5;
    match kind {
        0 => fields[col] = fields[col].clone().with_name("other"),
        1 => {
            fields.push(Field::new("extra", DataType::Int64, true));
            columns.push(column(Ty::I64, rows.iter().map(|_| &Val::Null)));
        }
        2 => {
            if n == 1 {
                return Ok(());
            }
            fields.remove(col);
            columns.remove(col);
        }
        3 => {
            let next = (col + 1) % n;
            if next == col {
                return Ok(());
            }
            fields.swap(col, next);
            columns.swap(col, next);
        }
        _ => {
            let ty = if spec.cols[col].ty == Ty::I64 { Ty::Str } else { Ty::I64 };
            let fill = pool(ty, 1);
            fields[col] = Field::new(fields[col].name(), ty.arrow(), fields[col].is_nullable());
            columns[col] = column(ty, rows.iter().map(|_| &fill));
        }
    }
    let other = RecordBatch::try_new(Arc::new(Schema::new(fields)), columns).map_err(|e| e.to_string())?;
    ensure!(
        v::project_keys(&cfg, &other).is_err(),
        "batch with schema {:?} accepted for {:?}",
        other.schema(),
        spec.schema()
    );
    // Null key components are rejected.
    let key_col = spec.keys[case.change as usize % spec.keys.len()];
    if spec.cols[key_col].nullable {
        let mut rows = rows.clone();
        let at = case.change as usize % rows.len();
        rows[at][key_col] = Val::Null;
        ensure!(v::project_keys(&cfg, &spec.batch(&rows)).is_err(), "null key accepted");
        obs.class("null key rejected");
    }
    obs.checks += 2;
    obs.nontrivial = rows.len() > 1;
    Ok(())
}

pub const ROWVALS: Gen<RowCase> = Gen {
    name: "row_values",
    rule: "1-5 rows over a generated layout read back through key extraction and row \
           materialisation, plain and sliced, plus one altered schema; non-trivial: several rows",
    strategy: row_strategy,
    test: row_test,
};

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PrintCase {
    fields: Vec<(u8, u8, bool, Vec<(u8, u8)>)>,
    meta: Vec<(u8, u8)>,
    change: u16,
}

fn print_strategy() -> BoxedStrategy<PrintCase> {
    let md = || prop::collection::vec((0u8..6, 0u8..4), 0..5);
    (
        prop::collection::vec((0u8..12, 0u8..16, any::<bool>(), md()), 1..6),
        md(),
        any::<u16>(),
    )
        .prop_map(|(fields, meta, change)| PrintCase {
            fields,
            meta,
            change,
        })
        .boxed()
}

fn meta_map(entries: &[(u8, u8)], reversed: bool) -> HashMap<String, String> {
    // Insertion order and capacity differ between the two forms.
    let mut map = if reversed { HashMap::with_capacity(64) } else { HashMap::new() };
    let mut list: Vec<(u8, u8)> = Vec::new();
    for (k, v) in entries {
        if !list.iter().any(|(x, _)| x == k) {
            list.push((*k, *v));
        }
    }
    if reversed {
        list.reverse();
    }
    for (k, v) in list {
        map.insert(format!("key{k}"), format!("value{v}"));
    }
    map
}

fn print_schema(case: &PrintCase, reversed: bool) -> Schema {
    Schema::new_with_metadata(
        case.fields
            .iter()
            .map(|(n, t, nullable, md)| {
                Field::new(NAMES[*n as usize], data_type(*t).0, *nullable)
                    .with_metadata(meta_map(md, reversed))
            })
            .collect::<Vec<_>>(),
        meta_map(&case.meta, reversed),
    )
}

fn print_test(case: &PrintCase, obs: &mut Obs) -> TestResult {
    let schema = Arc::new(print_schema(case, false));
    let print = v::fingerprint_schema(&schema);
    ensure_eq!(
        v::fingerprint_schema(&Arc::new(print_schema(case, true))),
        print,
        "fingerprint depends on metadata map order for {schema:?}"
    );
    // A single change to the schema changes the fingerprint.
    let mut other = case.clone();
    let n = other.fields.len();
    let f = case.change as usize / 8 % n;
    match case.change % 8 {
        0 => other.fields[f].0 = (other.fields[f].0 + 1) % NAMES.len() as u8,
        1 => other.fields[f].1 = (other.fields[f].1 + 1) % TYPES as u8,
        2 => other.fields[f].2 = !other.fields[f].2,
        3 => other.fields[f].3.insert(0, (99, 1)),
        4 => other.meta.insert(0, (99, 1)),
        5 => {
            if let Some(m) = other.meta.first_mut() {
                m.1 += 1;
            }
        }
        6 => {
            other.fields.remove(f);
        }
        _ => other.fields.swap(f, (f + 1) % n),
    }
    let changed = Arc::new(print_schema(&other, false));
    ensure_eq!(
        v::fingerprint_schema(&changed) == print,
        changed == schema,
        "fingerprints of {schema:?} and {changed:?}"
    );
    obs.class_if(changed != schema, "different schema");
    obs.checks += 2;
    obs.nontrivial = changed != schema;
    Ok(())
}

pub const FINGERPRINT: Gen<PrintCase> = Gen {
    name: "fingerprint",
    rule: "schemas with field and schema metadata, against themselves with reordered metadata and \
           against a one-step change; non-trivial: the change is a real one",
    strategy: print_strategy,
    test: print_test,
};
