//! Literals: exact comparison, conversion to keys, cells as literals, widened projections.

use std::{cmp::Ordering, sync::Arc};

use arrow_schema::{DataType, Schema};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{self as v, ScalarValue};

use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
};

/// A literal of a predicate; `ty` is its own type, not necessarily the column's.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lit {
    pub ty: Ty,
    pub val: Val,
}

#[derive(Clone, Copy, PartialEq)]
enum Family {
    Int,
    Float,
    Text,
    Bytes,
    Other,
}

fn family(ty: Ty) -> Family {
    match ty {
        Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 => Family::Int,
        Ty::F32 | Ty::F64 => Family::Float,
        Ty::Str | Ty::LStr => Family::Text,
        Ty::Bin | Ty::LBin | Ty::Fsb => Family::Bytes,
        Ty::Bool | Ty::List | Ty::Date | Ty::Time | Ty::Stamp => Family::Other,
    }
}

fn int(v: &Val) -> Option<i128> {
    match v {
        Val::I(i) => Some(*i as i128),
        Val::U(u) => Some(*u as i128),
        _ => None,
    }
}

/// Order of an integer and a float by value.
fn int_float(i: i128, f: f64) -> Option<Ordering> {
    if f.is_nan() {
        return None;
    }
    // Every integer here is well inside this range, where `floor` converts exactly.
    if f >= 1e30 {
        return Some(Ordering::Less);
    }
    if f <= -1e30 {
        return Some(Ordering::Greater);
    }
    let floor = f.floor();
    Some(i.cmp(&(floor as i128)).then(if f > floor { Ordering::Less } else { Ordering::Equal }))
}

/// What comparing two non-null values means: values of one type by that type's (total) order,
/// numbers of different types by value, texts and byte strings by their bytes.
pub fn compare(a_ty: Ty, a: &Val, b_ty: Ty, b: &Val) -> Option<Ordering> {
    match (family(a_ty), family(b_ty)) {
        (Family::Int, Family::Int) => Some(int(a)?.cmp(&int(b)?)),
        (Family::Float, Family::Float) => {
            let (Val::F(x), Val::F(y)) = (a, b) else { return None };
            if a_ty == b_ty { Some(x.total_cmp(y)) } else { x.partial_cmp(y) }
        }
        (Family::Int, Family::Float) => {
            let Val::F(y) = b else { return None };
            int_float(int(a)?, *y)
        }
        (Family::Float, Family::Int) => {
            let Val::F(x) = a else { return None };
            int_float(int(b)?, *x).map(Ordering::reverse)
        }
        (Family::Text, Family::Text) | (Family::Bytes, Family::Bytes) => Some(a.cmp(b)),
        (Family::Other, _) if a_ty == b_ty => Some(a.cmp(b)),
        _ => None,
    }
}

impl Lit {
    pub fn is_null(&self) -> bool {
        matches!(self.val, Val::Null)
    }

    pub fn scalar(&self) -> ScalarValue {
        macro_rules! one {
            ($variant:ident, $pat:pat => $e:expr) => {
                ScalarValue::$variant(match &self.val {
                    $pat => Some($e),
                    Val::Null => None,
                    other => panic!("literal {other:?} of type {:?}", self.ty),
                })
            };
        }
        match self.ty {
            Ty::Bool => one!(Boolean, Val::Bool(b) => *b),
            Ty::I8 => one!(Int8, Val::I(i) => *i as i8),
            Ty::I16 => one!(Int16, Val::I(i) => *i as i16),
            Ty::I32 => one!(Int32, Val::I(i) => *i as i32),
            Ty::I64 => one!(Int64, Val::I(i) => *i),
            Ty::U8 => one!(UInt8, Val::U(i) => *i as u8),
            Ty::U16 => one!(UInt16, Val::U(i) => *i as u16),
            Ty::U32 => one!(UInt32, Val::U(i) => *i as u32),
            Ty::U64 => one!(UInt64, Val::U(i) => *i),
            Ty::F32 => one!(Float32, Val::F(f) => *f as f32),
            Ty::F64 => one!(Float64, Val::F(f) => *f),
            Ty::Str => one!(Utf8, Val::S(s) => s.clone()),
            Ty::LStr => one!(LargeUtf8, Val::S(s) => s.clone()),
            Ty::Bin => one!(Binary, Val::B(b) => b.clone()),
            Ty::LBin => one!(LargeBinary, Val::B(b) => b.clone()),
            Ty::Fsb => match &self.val {
                Val::B(b) => ScalarValue::FixedSizeBinary(3, Some(b.clone())),
                _ => ScalarValue::FixedSizeBinary(3, None),
            },
            Ty::Date => one!(Date32, Val::I(i) => *i as i32),
            Ty::Time => match &self.val {
                Val::I(i) => ScalarValue::TimestampMicrosecond(Some(*i), Some("+00:00".into())),
                _ => ScalarValue::TimestampMicrosecond(None, Some("+00:00".into())),
            },
            Ty::Stamp => match &self.val {
                Val::I(i) => ScalarValue::TimestampMicrosecond(Some(*i), None),
                _ => ScalarValue::TimestampMicrosecond(None, None),
            },
            Ty::List => ScalarValue::Null,
        }
    }

    /// A literal of another type with (nearly) the value `val` of type `ty`.
    pub fn near(ty: Ty, val: &Val, pick: u8) -> Lit {
        const NUMBERS: [Ty; 10] = [
            Ty::I64,
            Ty::F64,
            Ty::U64,
            Ty::I32,
            Ty::F32,
            Ty::U32,
            Ty::I16,
            Ty::U8,
            Ty::I8,
            Ty::U16,
        ];
        let pick = pick as usize;
        let own = || Lit { ty, val: val.clone() };
        match family(ty) {
            Family::Int | Family::Float => {
                let to = NUMBERS[pick % NUMBERS.len()];
                let nudge = [0, 1, -1, 0][pick / 10 % 4];
                match (int(val), val) {
                    (Some(i), _) => from_int(to, i + nudge, pick / 40 % 4),
                    (None, Val::F(f)) if family(to) == Family::Float => Lit {
                        ty: to,
                        val: Val::F(if to == Ty::F32 { *f as f32 as f64 } else { *f }),
                    },
                    (None, Val::F(f)) => from_int(to, f.clamp(-1e30, 1e30) as i128 + nudge, 0),
                    _ => own(),
                }
            }
            Family::Text => Lit {
                ty: [Ty::Str, Ty::LStr][pick % 2],
                val: val.clone(),
            },
            Family::Bytes => match val {
                Val::B(b) => {
                    let mut to = [Ty::Bin, Ty::LBin, Ty::Fsb][pick % 3];
                    if b.len() != 3 && to == Ty::Fsb {
                        to = Ty::Bin;
                    }
                    Lit { ty: to, val: val.clone() }
                }
                _ => own(),
            },
            Family::Other => own(),
        }
    }
}

/// `i` clipped into the type; floats may get a fraction or step to a neighbour.
fn from_int(ty: Ty, i: i128, extra: usize) -> Lit {
    let clip = |lo: i128, hi: i128| i.clamp(lo, hi);
    let val = match ty {
        Ty::I8 => Val::I(clip(i8::MIN as i128, i8::MAX as i128) as i64),
        Ty::I16 => Val::I(clip(i16::MIN as i128, i16::MAX as i128) as i64),
        Ty::I32 => Val::I(clip(i32::MIN as i128, i32::MAX as i128) as i64),
        Ty::I64 => Val::I(clip(i64::MIN as i128, i64::MAX as i128) as i64),
        Ty::U8 => Val::U(clip(0, u8::MAX as i128) as u64),
        Ty::U16 => Val::U(clip(0, u16::MAX as i128) as u64),
        Ty::U32 => Val::U(clip(0, u32::MAX as i128) as u64),
        Ty::U64 => Val::U(clip(0, u64::MAX as i128) as u64),
        Ty::F32 => {
            let f = i as f32;
            Val::F(match extra {
                0 => f,
                1 => f + 0.5,
                2 => f.next_up(),
                _ => f.next_down(),
            } as f64)
        }
        _ => {
            let f = i as f64;
            Val::F(match extra {
                0 => f,
                1 => f - 0.5,
                2 => f.next_up(),
                _ => f.next_down(),
            })
        }
    };
    Lit {
        ty: if matches!(ty, Ty::F32) || matches!(val, Val::I(_) | Val::U(_)) { ty } else { Ty::F64 },
        val,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// Types and values of two literals.
    a: (Ty, u8),
    near: u8,
    base: (u8, u8),
    sizes: (u8, u8, u8, u8),
    floats: (u64, u64),
    spec: Spec,
    proj: Vec<u8>,
    need: Vec<u8>,
}

fn any_ty() -> impl Strategy<Value = Ty> {
    prop_oneof![3 => key_ty(), 2 => prop::sample::select(&VALUE_TYPES[1..])]
}

fn strategy() -> BoxedStrategy<Case> {
    (
        (any_ty(), any::<u8>()),
        any::<u8>(),
        any::<(u8, u8)>(),
        any::<(u8, u8, u8, u8)>(),
        any::<(u64, u64)>(),
        spec(),
        prop::collection::vec(any::<u8>(), 1..4),
        prop::collection::vec(any::<u8>(), 0..4),
    )
        .prop_map(|(a, near, base, sizes, floats, spec, proj, need)| Case {
            a,
            near,
            base,
            sizes,
            floats,
            spec,
            proj,
            need,
        })
        .boxed()
}

/// Integers next to powers of two and type limits.
fn landmark(power: u8, step: u8) -> i128 {
    let p = 1i128 << (power % 65);
    let d = (step % 9) as i128 - 4;
    if power >= 128 { -p + d } else { p + d }
}

fn zeros(a: &Lit, b: &Lit) -> bool {
    let zero = |v: &Val| match v {
        Val::I(i) => *i == 0,
        Val::U(u) => *u == 0,
        Val::F(f) => *f == 0.0,
        _ => false,
    };
    zero(&a.val) && zero(&b.val)
}

fn nan(v: &Val) -> bool {
    matches!(v, Val::F(f) if f.is_nan())
}

fn pair(a: &Lit, b: &Lit, obs: &mut Obs) -> TestResult {
    let got = v::scalar_compare(&a.scalar(), &b.scalar());
    let back = v::scalar_compare(&b.scalar(), &a.scalar());
    ensure_eq!(back, got.map(Ordering::reverse), "order of {b:?} and {a:?} is not the reverse");
    obs.checks += 2;
    // Whether the two zeros differ is a matter of taste; so is where NaN goes.
    if nan(&a.val) || nan(&b.val) {
        ensure!(
            a.ty == b.ty || got.is_none(),
            "{a:?} against {b:?} is {got:?} although neither is more than the other"
        );
        return Ok(());
    }
    let want = compare(a.ty, &a.val, b.ty, &b.val);
    if zeros(a, b) && want.is_some() {
        ensure!(got.is_some(), "{a:?} and {b:?} do not compare");
        return Ok(());
    }
    ensure_eq!(got, want, "order of {a:?} and {b:?}");
    obs.class_if(family(a.ty) != family(b.ty) && got.is_some(), "integer against float");
    obs.class_if(got == Some(Ordering::Equal), "equal values");
    Ok(())
}

fn test(case: &Case, obs: &mut Obs) -> TestResult {
    const NUMBERS: [Ty; 10] = [
        Ty::I8,
        Ty::I16,
        Ty::I32,
        Ty::I64,
        Ty::U8,
        Ty::U16,
        Ty::U32,
        Ty::U64,
        Ty::F32,
        Ty::F64,
    ];
    let num = |i: i128, pick: u8| from_int(NUMBERS[pick as usize % 10], i, pick as usize / 10 % 4);
    let base = landmark(case.base.0, case.base.1);
    let (s0, s1, s2, s3) = case.sizes;
    let mut lits = vec![
        num(base, s0),
        num(base, s1),
        num(base + (s3 % 3) as i128 - 1, s2),
        num(landmark(s3, s2), s1),
        Lit { ty: Ty::F64, val: Val::F(f64::from_bits(case.floats.0)) },
        Lit { ty: Ty::F32, val: Val::F(f32::from_bits(case.floats.1 as u32) as f64) },
    ];
    let own = Lit {
        ty: case.a.0,
        val: pool(case.a.0, case.a.1 as usize),
    };
    lits.push(Lit::near(own.ty, &own.val, case.near));
    lits.push(own);
    for a in &lits {
        for b in &lits {
            pair(a, b, obs)?;
        }
        // As a key of any type: the value itself or nothing.
        for ty in KEY_TYPES {
            if let Some(key) = v::scalar_key(&a.scalar(), &ty.arrow()) {
                let cells = key_vals(&key);
                ensure_eq!(cells.len(), 1, "components of a literal's key");
                let kept = match (&cells[0], &a.val) {
                    (Val::F(x), Val::F(y)) => x == y || (x.is_nan() && y.is_nan()),
                    (x, y) => compare(ty, x, a.ty, y) == Some(Ordering::Equal),
                };
                ensure!(kept, "{a:?} as a key of type {ty:?} is {:?}", cells[0]);
                let typed = v::KeyOwned::clone(&key);
                let direct = owned_component(ty, &cells[0]);
                ensure!(typed == direct, "{a:?} as a key of type {ty:?} has another type: {key:?}");
                obs.class_if(ty != a.ty, "key of another type");
                obs.checks += 1;
            }
        }
        ensure!(
            v::scalar_key(&Lit { ty: a.ty, val: Val::Null }.scalar(), &a.ty.arrow()).is_none(),
            "a null of type {:?} became a key",
            a.ty
        );
        // Cells keep their value.
        if let Some(cell) = dyn_cell(a.ty, &a.val) {
            let got = v::cell_scalar(&cell)?;
            let plain = Lit {
                ty: match a.ty {
                    Ty::LStr => Ty::Str,
                    Ty::LBin | Ty::Fsb => Ty::Bin,
                    Ty::Date => Ty::I32,
                    Ty::Time | Ty::Stamp => Ty::I64,
                    ty => ty,
                },
                val: a.val.clone(),
            };
            let same = got == plain.scalar() || nan(&a.val);
            ensure!(same, "cell of {a:?} reads as {got:?}");
            obs.checks += 1;
        }
    }
    projection(case, obs)?;
    obs.nontrivial = lits[0].ty != lits[1].ty;
    Ok(())
}

/// Widening a projection keeps every column asked for, once, and nothing else.
fn projection(case: &Case, obs: &mut Obs) -> TestResult {
    let spec = &case.spec;
    let n = spec.cols.len();
    let mut cols: Vec<usize> = Vec::new();
    for p in &case.proj {
        let c = *p as usize % n;
        if !cols.contains(&c) {
            cols.push(c);
        }
    }
    let mut need: Vec<usize> = case.need.iter().map(|p| *p as usize % n).collect();
    need.sort();
    need.dedup();
    let base = spec.schema();
    let proj = spec.projected(&cols);
    let names: Vec<String> = need.iter().map(|c| format!("c{c}")).collect();
    let got = v::extend_projection(&base, &proj, &names)?;
    for c in cols.iter().chain(&need) {
        let field = got.field_with_name(&format!("c{c}")).map_err(|_| format!("column {c} lost"))?;
        ensure_eq!(field, base.field(*c), "column {c}");
    }
    let wanted: std::collections::BTreeSet<usize> = cols.iter().chain(&need).copied().collect();
    ensure_eq!(got.fields().len(), wanted.len(), "columns of {got:?}");
    obs.class_if(wanted.len() > cols.len(), "projection widened");
    let mut names = names;
    names.push("missing".into());
    ensure!(v::extend_projection(&base, &proj, &names).is_err(), "missing column accepted");
    let only = Arc::new(Schema::new(vec![arrow_schema::Field::new("x", DataType::Int64, true)]));
    ensure!(v::extend_projection(&base, &only, &names).is_err(), "foreign column accepted");
    obs.checks += 4;
    Ok(())
}

pub const SCALAR: Gen<Case> = Gen {
    name: "scalar",
    rule: "literals next to powers of two, type limits and each other in every numeric type, random \
           float bit patterns, texts and byte strings: pairwise order, conversion to keys, cells, \
           widened projections; non-trivial: the first two literals differ in type",
    strategy,
    test,
};
