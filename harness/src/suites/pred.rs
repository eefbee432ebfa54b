#![cfg(feature = "full")]
//! Predicates: what a query means, and the pieces the read path makes of it.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::{db::Expr, verif as v};

use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
    suites::scalar::{Lit, compare},
};

// ---------------------------------------------------------------------------------------------
// Queries
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pred {
    True,
    False,
    /// column, operator, literal seed
    Cmp(u8, u8, u8),
    Between(u8, u8, u8, bool),
    In(u8, Vec<u8>),
    Starts(u8, u8),
    Null(u8, bool),
    And(Vec<Pred>),
    Or(Vec<Pred>),
    Not(Box<Pred>),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Query {
    pub pred: Option<Pred>,
    /// Bits choose columns; the low bits also rotate their order.
    pub proj: Option<Vec<u8>>,
    pub limit: Option<u8>,
}

/// Literal `seed` for a column: values that occur in the column plus neighbours; high seeds give
/// literals of other types and nulls.
fn literal(spec: &Spec, col: usize, seed: u8) -> Lit {
    let ty = spec.cols[col].ty;
    let val = match spec.keys.iter().position(|k| *k == col) {
        Some(_) => pool(ty, (seed % 64) as usize + spec.salt as usize),
        None => value_for(ty, false, seed as u32 % 64 + col as u32),
    };
    match seed {
        0..64 => Lit { ty, val },
        250..=255 => Lit { ty, val: Val::Null },
        _ => Lit::near(ty, &val, seed.wrapping_mul(37)),
    }
}

/// A predicate resolved against a table layout.
#[derive(Clone, Debug)]
pub enum Cond {
    True,
    False,
    Cmp(usize, u8, Lit),
    Between(usize, Lit, Lit, bool),
    In(usize, Vec<Lit>),
    Starts(usize, String),
    Null(usize, bool),
    And(Vec<Cond>),
    Or(Vec<Cond>),
    Not(Box<Cond>),
}

impl Pred {
    pub fn resolve(&self, spec: &Spec) -> Cond {
        let n = spec.cols.len();
        // Three quarters of the leaves go to key columns.
        let col = |c: u8| {
            let any = (c / 4) as usize % n;
            // The predicate evaluator refuses list columns.
            if c % 4 != 0 || spec.cols[any].ty == Ty::List {
                spec.keys[(c / 4) as usize % spec.keys.len()]
            } else {
                any
            }
        };
        // Lists have no literals.
        let plain = |c: usize| spec.cols[c].ty != Ty::List;
        match self {
            Pred::True => Cond::True,
            Pred::False => Cond::False,
            Pred::Cmp(c, op, l) => {
                let c = col(*c);
                if plain(c) {
                    Cond::Cmp(c, op % 6, literal(spec, c, *l))
                } else {
                    Cond::Null(c, op % 2 == 1)
                }
            }
            Pred::Between(c, a, b, incl) => {
                let c = col(*c);
                if plain(c) {
                    Cond::Between(c, literal(spec, c, *a), literal(spec, c, *b), *incl)
                } else {
                    Cond::Null(c, *incl)
                }
            }
            Pred::In(c, ls) => {
                let c = col(*c);
                if plain(c) {
                    Cond::In(c, ls.iter().map(|l| literal(spec, c, *l)).collect())
                } else {
                    Cond::Null(c, ls.len() % 2 == 1)
                }
            }
            Pred::Starts(c, l) => {
                let c = col(*c);
                if matches!(spec.cols[c].ty, Ty::Str | Ty::LStr) {
                    let Val::S(s) = literal(spec, c, *l % 64).val else { unreachable!() };
                    let cut = (*l / 16) as usize;
                    Cond::Starts(c, s.chars().take(cut.max(1)).collect())
                } else {
                    Cond::Null(c, l % 2 == 1)
                }
            }
            Pred::Null(c, neg) => Cond::Null(col(*c), *neg),
            Pred::And(ps) => Cond::And(ps.iter().map(|p| p.resolve(spec)).collect()),
            Pred::Or(ps) => Cond::Or(ps.iter().map(|p| p.resolve(spec)).collect()),
            Pred::Not(p) => Cond::Not(Box::new(p.resolve(spec))),
        }
    }
}

impl Cond {
    pub fn expr(&self) -> Expr {
        let name = |c: usize| format!("c{c}");
        match self {
            Cond::True => Expr::True,
            Cond::False => Expr::False,
            Cond::Cmp(c, op, v) => {
                let (n, l) = (name(*c), v.scalar());
                match op {
                    0 => Expr::eq(n, l),
                    1 => Expr::not_eq(n, l),
                    2 => Expr::lt(n, l),
                    3 => Expr::lt_eq(n, l),
                    4 => Expr::gt(n, l),
                    _ => Expr::gt_eq(n, l),
                }
            }
            Cond::Between(c, a, b, incl) => Expr::between(name(*c), a.scalar(), b.scalar(), *incl),
            Cond::In(c, vs) => Expr::in_list(name(*c), vs.iter().map(Lit::scalar).collect()),
            Cond::Starts(c, p) => Expr::starts_with(name(*c), p.clone()),
            Cond::Null(c, false) => Expr::is_null(name(*c)),
            Cond::Null(c, true) => Expr::is_not_null(name(*c)),
            Cond::And(ps) => Expr::and(ps.iter().map(|p| p.expr()).collect()),
            Cond::Or(ps) => Expr::or(ps.iter().map(|p| p.expr()).collect()),
            Cond::Not(p) => Expr::not(p.expr()),
        }
    }

    /// Three-valued evaluation on a row; a row matches when the result is true.
    pub fn eval(&self, spec: &Spec, row: &[Val]) -> Option<bool> {
        use std::cmp::Ordering::{self, *};
        let null = |c: usize| matches!(row[c], Val::Null);
        let order = |c: usize, lit: &Lit| -> Option<Ordering> {
            if null(c) || lit.is_null() {
                return None;
            }
            compare(spec.cols[c].ty, &row[c], lit.ty, &lit.val)
        };
        match self {
            Cond::True => Some(true),
            Cond::False => Some(false),
            Cond::Cmp(c, op, v) => order(*c, v).map(|o| match op {
                0 => o == Equal,
                1 => o != Equal,
                2 => o == Less,
                3 => o != Greater,
                4 => o == Greater,
                _ => o != Less,
            }),
            Cond::Between(c, a, b, incl) => and(
                order(*c, a).map(|o| if *incl { o != Less } else { o == Greater }),
                order(*c, b).map(|o| if *incl { o != Greater } else { o == Less }),
            ),
            Cond::In(c, vs) => {
                if null(*c) {
                    None
                } else {
                    vs.iter().map(|v| order(*c, v).map(|o| o == Equal)).fold(Some(false), or)
                }
            }
            Cond::Starts(c, p) => match &row[*c] {
                Val::S(s) => Some(s.starts_with(p.as_str())),
                _ => None,
            },
            Cond::Null(c, neg) => Some(null(*c) != *neg),
            Cond::And(ps) => ps.iter().map(|p| p.eval(spec, row)).fold(Some(true), and),
            Cond::Or(ps) => ps.iter().map(|p| p.eval(spec, row)).fold(Some(false), or),
            Cond::Not(p) => p.eval(spec, row).map(|b| !b),
        }
    }
}

fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}

fn or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    and(a.map(|x| !x), b.map(|x| !x)).map(|x| !x)
}

impl Query {
    pub fn columns(&self, spec: &Spec) -> Option<Vec<usize>> {
        self.proj.as_ref().map(|picks| {
            let mut cols: Vec<usize> = Vec::new();
            for p in picks {
                let c = *p as usize % spec.cols.len();
                if !cols.contains(&c) {
                    cols.push(c);
                }
            }
            cols
        })
    }

    /// Filter, project and truncate rows one by one.
    pub fn apply(&self, spec: &Spec, rows: &[Row]) -> Vec<Row> {
        let cond = self.pred.as_ref().map(|p| p.resolve(spec));
        let cols = self.columns(spec);
        rows.iter()
            .filter(|r| cond.as_ref().is_none_or(|c| c.eval(spec, r) == Some(true)))
            .take(self.limit.map_or(usize::MAX, |l| l as usize))
            .map(|r| match &cols {
                Some(cols) => cols.iter().map(|c| r[*c].clone()).collect(),
                None => r.clone(),
            })
            .collect()
    }
}

/// Two thirds of the literals have the column's own type.
fn seed() -> impl Strategy<Value = u8> {
    prop_oneof![2 => 0u8..64, 1 => 64u8..=255]
}

fn leaf() -> impl Strategy<Value = Pred> {
    prop_oneof![
        1 => Just(Pred::True),
        1 => Just(Pred::False),
        10 => (any::<u8>(), 0u8..6, seed()).prop_map(|(c, o, l)| Pred::Cmp(c, o, l)),
        4 => (any::<u8>(), seed(), seed(), any::<bool>())
            .prop_map(|(c, a, b, i)| Pred::Between(c, a, b, i)),
        3 => (any::<u8>(), prop::collection::vec(seed(), 0..4)).prop_map(|(c, l)| Pred::In(c, l)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(c, l)| Pred::Starts(c, l)),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(c, n)| Pred::Null(c, n)),
    ]
}

pub fn pred() -> impl Strategy<Value = Pred> {
    leaf().prop_recursive(3, 8, 3, |inner| {
        prop_oneof![
            3 => prop::collection::vec(inner.clone(), 0..4).prop_map(Pred::And),
            2 => prop::collection::vec(inner.clone(), 0..4).prop_map(Pred::Or),
            1 => inner.prop_map(|p| Pred::Not(Box::new(p))),
        ]
    })
}

pub fn query() -> impl Strategy<Value = Query> {
    (
        prop::option::weighted(0.8, pred()),
        prop::option::weighted(0.4, prop::collection::vec(any::<u8>(), 1..4)),
        prop::option::weighted(0.3, 0u8..8),
    )
        .prop_map(|(pred, proj, limit)| Query { pred, proj, limit })
}


// ---------------------------------------------------------------------------------------------
// Pieces
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    spec: Spec,
    rows: Vec<(u8, u32)>,
    pred: Pred,
    proj: Vec<u8>,
}

fn strategy() -> BoxedStrategy<Case> {
    (
        spec(),
        prop::collection::vec((0u8..27, 0u32..64), 1..8),
        pred(),
        prop::collection::vec(any::<u8>(), 1..4),
    )
        .prop_map(|(spec, rows, pred, proj)| Case { spec, rows, pred, proj })
        .boxed()
}

fn columns_of<'a>(expr: &'a Expr, out: &mut Vec<&'a str>) {
    match expr {
        Expr::Cmp { column, .. }
        | Expr::Between { column, .. }
        | Expr::InList { column, .. }
        | Expr::StartsWith { column, .. }
        | Expr::IsNull { column, .. } => out.push(column),
        Expr::And(es) | Expr::Or(es) => es.iter().for_each(|e| columns_of(e, out)),
        Expr::Not(e) => columns_of(e, out),
        _ => {}
    }
}

/// Literals that the row filter has to compare must have the column's type.
fn typed(expr: &Expr, schema: &arrow_schema::Schema) -> bool {
    let fits = |column: &str, values: &[&v::ScalarValue]| {
        schema
            .field_with_name(column)
            .is_ok_and(|f| values.iter().all(|x| x.data_type() == *f.data_type()))
    };
    match expr {
        Expr::Cmp { column, value, .. } => fits(column, &[value]),
        Expr::Between { column, low, high, .. } => fits(column, &[low, high]),
        Expr::InList { column, values } => fits(column, &values.iter().collect::<Vec<_>>()),
        Expr::StartsWith { column, .. } | Expr::IsNull { column, .. } => fits(column, &[]),
        Expr::And(es) | Expr::Or(es) => es.iter().all(|e| typed(e, schema)),
        Expr::Not(e) => typed(e, schema),
        _ => true,
    }
}

fn test(case: &Case, obs: &mut Obs) -> TestResult {
    use std::ops::Bound;
    use v::predicate as p;

    let spec = &case.spec;
    let schema = spec.schema();
    let keys = v::key_schema(&spec.config());
    let cond = case.pred.resolve(spec);
    let expr = cond.expr();
    // The evaluator refuses list columns.
    let mut touched = Vec::new();
    columns_of(&expr, &mut touched);
    let (filter, rest) = p::row_filter_split(&expr, &schema);
    ensure!(
        filter.as_ref().is_none_or(|f| typed(f, &schema)),
        "row filter {filter:?} of {expr:?} compares a column with another type"
    );
    let (on_key, on_value) = p::key_split(&expr, &keys);
    let mut names = Vec::new();
    columns_of(&on_key, &mut names);
    for n in &names {
        ensure!(keys.field_with_name(n).is_ok(), "key part {on_key:?} of {expr:?} reads {n}");
    }
    let bounds = p::bounds(&expr, &keys);
    let range = p::range(&expr, &keys);
    let (_, memory_rest) = p::memory_split(&expr, &keys);
    let mut hits = 0;
    let mut by_key = std::collections::BTreeMap::new();
    for (k, seed) in &case.rows {
        let row = spec.row(*k, *seed);
        let cells = dyn_row(spec, &row);
        let eval = |e: &Expr| p::matches(&schema, e, &cells).map_err(|err| format!("{e:?} on {row:?}: {err}"));
        let eval_opt = |e: &Option<Expr>| e.as_ref().map_or(Ok(true), eval);
        let got = eval(&expr)?;
        let want = cond.eval(spec, &row) == Some(true);
        ensure_eq!(got, want, "{expr:?} on {row:?}");
        hits += usize::from(got);
        // Storage applies the key part to each version of a key by itself.
        let part = eval(&on_key)?;
        let (first, was) = by_key.entry(spec.key_of(&row)).or_insert_with(|| (row.clone(), part));
        ensure_eq!(part, *was, "key part {on_key:?} on {row:?} and, of the same key, {first:?}");
        ensure_eq!(
            eval_opt(&filter)? && eval_opt(&rest)?,
            want,
            "{expr:?} split into row filter {filter:?} and {rest:?} on {row:?}"
        );
        ensure_eq!(
            eval(&on_key)? && eval_opt(&on_value)?,
            want,
            "{expr:?} split into key part {on_key:?} and {on_value:?} on {row:?}"
        );
        let key = owned_key(spec, &spec.key_of(&row));
        let inside = bounds.as_ref().is_none_or(|b| b.overlaps(&key, &key));
        ensure!(inside || !want, "{expr:?} matches {row:?} but {bounds:?} does not admit its key");
        let in_range = range.as_ref().is_none_or(|(lo, hi)| {
            (match lo {
                Bound::Included(l) => key >= *l,
                Bound::Excluded(l) => key > *l,
                Bound::Unbounded => true,
            }) && (match hi {
                Bound::Included(h) => key <= *h,
                Bound::Excluded(h) => key < *h,
                Bound::Unbounded => true,
            })
        });
        ensure_eq!(
            inside && in_range && eval_opt(&memory_rest)?,
            want,
            "{expr:?} on {row:?}: key bounds {bounds:?}, range {range:?}, rest {memory_rest:?}"
        );
        obs.checks += 5;
        obs.class_if(!inside, "excluded by key bounds");
        obs.class_if(memory_rest.is_none() && range.is_some() && got, "decided by the key range");
        obs.class_if(filter.is_some() && rest.is_some() && got, "filter and rest");
        obs.class_if(on_value.is_some() && got, "conditions on values");
    }
    // The scan reads every column the predicate and the caller need.
    let cols = Query { pred: None, proj: Some(case.proj.clone()), limit: None }
        .columns(spec)
        .unwrap_or_default();
    let wide = p::projection(&schema, &spec.projected(&cols), Some(&expr))?;
    for name in touched.iter().map(|n| n.to_string()).chain(cols.iter().map(|c| format!("c{c}"))) {
        ensure!(wide.field_with_name(&name).is_ok(), "scan for {expr:?} does not read {name}");
    }
    obs.check();
    obs.nontrivial = hits > 0 && hits < case.rows.len() && !touched.is_empty();
    Ok(())
}

pub const PRED: Gen<Case> = Gen {
    name: "predicate",
    rule: "predicate trees with literals of the column's own and other types against 1-7 rows: \
           row evaluator, row filter split, key split, key bounds and memtable range compared with \
           three-valued evaluation by value; non-trivial: some but not all rows match",
    strategy,
    test,
};
