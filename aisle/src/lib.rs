//! Offline stand-in for the `aisle` crate.
//!
//! tonbo's Cargo.toml names a git dependency (`tonbo-io/aisle`) that cannot be
//! fetched here. This crate provides the part of its interface tonbo uses, with
//! the semantics tonbo's code relies on: SQL three-valued predicate evaluation
//! for the row filter, and *sound* row-group / page pruning (a row group or page
//! range is dropped only if no row in it can satisfy the predicate).

use std::{cmp::Ordering, collections::HashMap, future::Future};

use arrow_array::{Array, ArrayRef, BooleanArray, RecordBatch};
use arrow_schema::{ArrowError, Schema, SchemaRef};
use datafusion_common::ScalarValue;
use parquet::{
    arrow::{
        ProjectionMask,
        arrow_reader::{
            ArrowPredicate, RowSelection, RowSelector, statistics::StatisticsConverter,
        },
    },
    bloom_filter::Sbbf,
    file::metadata::ParquetMetaData,
    schema::types::SchemaDescriptor,
};

/// Comparison operators.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CmpOp {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
}

/// Predicate IR.
#[derive(Clone, Debug, PartialEq)]
#[non_exhaustive]
pub enum Expr {
    True,
    False,
    Cmp {
        column: String,
        op: CmpOp,
        value: ScalarValue,
    },
    Between {
        column: String,
        low: ScalarValue,
        high: ScalarValue,
        inclusive: bool,
    },
    InList {
        column: String,
        values: Vec<ScalarValue>,
    },
    BloomFilterEq {
        column: String,
        value: ScalarValue,
    },
    BloomFilterInList {
        column: String,
        values: Vec<ScalarValue>,
    },
    StartsWith {
        column: String,
        prefix: String,
    },
    IsNull {
        column: String,
        negated: bool,
    },
    And(Vec<Expr>),
    Or(Vec<Expr>),
    Not(Box<Expr>),
}

impl Expr {
    fn cmp(column: impl Into<String>, op: CmpOp, value: ScalarValue) -> Self {
        Expr::Cmp {
            column: column.into(),
            op,
            value,
        }
    }
    pub fn eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Eq, value)
    }
    pub fn not_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::NotEq, value)
    }
    pub fn lt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Lt, value)
    }
    pub fn lt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::LtEq, value)
    }
    pub fn gt(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::Gt, value)
    }
    pub fn gt_eq(column: impl Into<String>, value: ScalarValue) -> Self {
        Self::cmp(column, CmpOp::GtEq, value)
    }
    pub fn between(
        column: impl Into<String>,
        low: ScalarValue,
        high: ScalarValue,
        inclusive: bool,
    ) -> Self {
        Expr::Between {
            column: column.into(),
            low,
            high,
            inclusive,
        }
    }
    pub fn in_list(column: impl Into<String>, values: Vec<ScalarValue>) -> Self {
        Expr::InList {
            column: column.into(),
            values,
        }
    }
    pub fn starts_with(column: impl Into<String>, prefix: impl Into<String>) -> Self {
        Expr::StartsWith {
            column: column.into(),
            prefix: prefix.into(),
        }
    }
    pub fn is_null(column: impl Into<String>) -> Self {
        Expr::IsNull {
            column: column.into(),
            negated: false,
        }
    }
    pub fn is_not_null(column: impl Into<String>) -> Self {
        Expr::IsNull {
            column: column.into(),
            negated: true,
        }
    }
    pub fn and(children: Vec<Expr>) -> Self {
        Expr::And(children)
    }
    pub fn or(children: Vec<Expr>) -> Self {
        Expr::Or(children)
    }
    #[allow(clippy::should_implement_trait)]
    pub fn not(child: Expr) -> Self {
        Expr::Not(Box::new(child))
    }

    fn columns<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            Expr::True | Expr::False => {}
            Expr::Cmp { column, .. }
            | Expr::Between { column, .. }
            | Expr::InList { column, .. }
            | Expr::BloomFilterEq { column, .. }
            | Expr::BloomFilterInList { column, .. }
            | Expr::StartsWith { column, .. }
            | Expr::IsNull { column, .. } => out.push(column),
            Expr::And(c) | Expr::Or(c) => c.iter().for_each(|e| e.columns(out)),
            Expr::Not(c) => c.columns(out),
        }
    }
}

// ---------------------------------------------------------------------------
// Row filter
// ---------------------------------------------------------------------------

type Tri = Option<bool>;

fn cmp_tri(op: CmpOp, ord: Option<Ordering>) -> Tri {
    ord.map(|o| match op {
        CmpOp::Eq => o == Ordering::Equal,
        CmpOp::NotEq => o != Ordering::Equal,
        CmpOp::Lt => o == Ordering::Less,
        CmpOp::LtEq => o != Ordering::Greater,
        CmpOp::Gt => o == Ordering::Greater,
        CmpOp::GtEq => o != Ordering::Less,
    })
}

fn and_tri(a: Tri, b: Tri) -> Tri {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}

fn or_tri(a: Tri, b: Tri) -> Tri {
    match (a, b) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}

fn cell(batch: &RecordBatch, column: &str, row: usize) -> Result<ScalarValue, ArrowError> {
    let array = batch.column_by_name(column).ok_or_else(|| {
        ArrowError::SchemaError(format!("column {column} not found for row filter"))
    })?;
    ScalarValue::try_from_array(array, row).map_err(|e| ArrowError::ComputeError(e.to_string()))
}

fn eval(expr: &Expr, batch: &RecordBatch, row: usize) -> Result<Tri, ArrowError> {
    Ok(match expr {
        Expr::True => Some(true),
        Expr::False => Some(false),
        Expr::Cmp { column, op, value } => {
            let v = cell(batch, column, row)?;
            if v.is_null() || value.is_null() {
                None
            } else {
                cmp_tri(*op, v.partial_cmp(value))
            }
        }
        Expr::Between {
            column,
            low,
            high,
            inclusive,
        } => {
            let v = cell(batch, column, row)?;
            let (lo, hi) = if *inclusive {
                (CmpOp::GtEq, CmpOp::LtEq)
            } else {
                (CmpOp::Gt, CmpOp::Lt)
            };
            let side = |op, bound: &ScalarValue| {
                if v.is_null() || bound.is_null() {
                    None
                } else {
                    cmp_tri(op, v.partial_cmp(bound))
                }
            };
            and_tri(side(lo, low), side(hi, high))
        }
        Expr::InList { column, values } => {
            let v = cell(batch, column, row)?;
            if v.is_null() {
                None
            } else {
                let mut acc = Some(false);
                for value in values {
                    let t = if value.is_null() {
                        None
                    } else {
                        cmp_tri(CmpOp::Eq, v.partial_cmp(value))
                    };
                    acc = or_tri(acc, t);
                }
                acc
            }
        }
        Expr::StartsWith { column, prefix } => match cell(batch, column, row)? {
            ScalarValue::Utf8(Some(s))
            | ScalarValue::LargeUtf8(Some(s))
            | ScalarValue::Utf8View(Some(s)) => Some(s.starts_with(prefix.as_str())),
            v if v.is_null() => None,
            _ => {
                return Err(ArrowError::ComputeError(
                    "starts_with on a non-string column".into(),
                ));
            }
        },
        Expr::IsNull { column, negated } => {
            let null = cell(batch, column, row)?.is_null();
            Some(null != *negated)
        }
        Expr::BloomFilterEq { .. } | Expr::BloomFilterInList { .. } => {
            return Err(ArrowError::NotYetImplemented(
                "bloom filter predicate in row filter".into(),
            ));
        }
        Expr::And(children) => {
            let mut acc = Some(true);
            for c in children {
                acc = and_tri(acc, eval(c, batch, row)?);
            }
            acc
        }
        Expr::Or(children) => {
            let mut acc = Some(false);
            for c in children {
                acc = or_tri(acc, eval(c, batch, row)?);
            }
            acc
        }
        Expr::Not(c) => eval(c, batch, row)?.map(|b| !b),
    })
}

/// Exact row filter usable as a parquet `ArrowPredicate`.
pub struct RowFilter {
    expr: Expr,
    projection: ProjectionMask,
}

impl RowFilter {
    pub fn new(expr: Expr, schema: &SchemaDescriptor) -> Self {
        let mut names = Vec::new();
        expr.columns(&mut names);
        let roots: Vec<usize> = schema
            .root_schema()
            .get_fields()
            .iter()
            .enumerate()
            .filter(|(_, f)| names.contains(&f.name()))
            .map(|(i, _)| i)
            .collect();
        let projection = ProjectionMask::roots(schema, roots);
        Self { expr, projection }
    }
}

impl ArrowPredicate for RowFilter {
    fn projection(&self) -> &ProjectionMask {
        &self.projection
    }

    fn evaluate(&mut self, batch: RecordBatch) -> Result<BooleanArray, ArrowError> {
        let mut out = Vec::with_capacity(batch.num_rows());
        for row in 0..batch.num_rows() {
            out.push(Some(eval(&self.expr, &batch, row)? == Some(true)));
        }
        Ok(BooleanArray::from(out))
    }
}

// ---------------------------------------------------------------------------
// Pruning
// ---------------------------------------------------------------------------

/// Provides bloom filters for (row group, column) pairs.
#[allow(async_fn_in_trait)]
pub trait AsyncBloomFilterProvider {
    fn bloom_filter(
        &mut self,
        row_group_idx: usize,
        column_idx: usize,
    ) -> impl Future<Output = Option<Sbbf>>;

    fn bloom_filters_batch<'a>(
        &'a mut self,
        requests: &'a [(usize, usize)],
    ) -> impl Future<Output = HashMap<(usize, usize), Sbbf>> + 'a {
        async move {
            let mut out = HashMap::new();
            for &(rg, col) in requests {
                if let Some(f) = self.bloom_filter(rg, col).await {
                    out.insert((rg, col), f);
                }
            }
            out
        }
    }
}

/// Outcome of pruning.
#[derive(Debug, Clone)]
pub struct PruneResult {
    row_groups: Vec<usize>,
    row_selection: Option<RowSelection>,
}

impl PruneResult {
    pub fn row_groups(&self) -> &[usize] {
        &self.row_groups
    }
    pub fn row_selection(&self) -> Option<&RowSelection> {
        self.row_selection.as_ref()
    }
}

#[derive(Debug)]
pub struct PrunerError;

impl std::fmt::Display for PrunerError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("pruner error")
    }
}
impl std::error::Error for PrunerError {}

/// Reusable pruner bound to a schema.
#[derive(Debug, Clone)]
pub struct Pruner {
    schema: SchemaRef,
}

impl Pruner {
    pub fn try_new(schema: SchemaRef) -> Result<Self, PrunerError> {
        Ok(Self { schema })
    }

    pub async fn prune_ir_with_bloom_provider<P: AsyncBloomFilterProvider>(
        &self,
        metadata: &ParquetMetaData,
        predicates: &[Expr],
        provider: &mut P,
    ) -> PruneResult {
        let expr = Expr::And(predicates.to_vec());
        prune(metadata, &self.schema, &expr, provider).await
    }
}

/// One-off pruning request.
pub struct PruneRequest<'a> {
    metadata: &'a ParquetMetaData,
    schema: &'a Schema,
    predicate: Option<&'a Expr>,
}

impl<'a> PruneRequest<'a> {
    pub fn new(metadata: &'a ParquetMetaData, schema: &'a Schema) -> Self {
        Self {
            metadata,
            schema,
            predicate: None,
        }
    }
    pub fn with_predicate(mut self, predicate: &'a Expr) -> Self {
        self.predicate = Some(predicate);
        self
    }
    pub fn enable_page_index(self, _on: bool) -> Self {
        self
    }
    pub fn enable_bloom_filter(self, _on: bool) -> Self {
        self
    }
    pub async fn prune_async<P: AsyncBloomFilterProvider>(self, provider: &mut P) -> PruneResult {
        let expr = self.predicate.cloned().unwrap_or(Expr::True);
        prune(self.metadata, self.schema, &expr, provider).await
    }
}

/// Statistics of one container (row group or page) for one column.
struct ColStats {
    min: Option<ScalarValue>,
    max: Option<ScalarValue>,
    null_count: Option<u64>,
    rows: Option<u64>,
}

fn usable(v: &Option<ScalarValue>, like: &ScalarValue) -> Option<ScalarValue> {
    let v = v.as_ref()?;
    if v.is_null() || v.data_type() != like.data_type() {
        return None;
    }
    // NaN and negative zero make float statistics unreliable.
    match v {
        ScalarValue::Float16(_) | ScalarValue::Float32(_) | ScalarValue::Float64(_) => None,
        _ => Some(v.clone()),
    }
}

/// `true` = no row of the container can make the comparison true.
fn refutes_cmp(stats: &ColStats, op: CmpOp, value: &ScalarValue) -> bool {
    if value.is_null() {
        return false;
    }
    let min = usable(&stats.min, value);
    let max = usable(&stats.max, value);
    let lt = |a: &Option<ScalarValue>, b: &ScalarValue| {
        a.as_ref()
            .is_some_and(|a| a.partial_cmp(b) == Some(Ordering::Less))
    };
    let gt = |a: &Option<ScalarValue>, b: &ScalarValue| {
        a.as_ref()
            .is_some_and(|a| a.partial_cmp(b) == Some(Ordering::Greater))
    };
    let eq = |a: &Option<ScalarValue>, b: &ScalarValue| {
        a.as_ref()
            .is_some_and(|a| a.partial_cmp(b) == Some(Ordering::Equal))
    };
    match op {
        CmpOp::Eq => gt(&min, value) || lt(&max, value),
        CmpOp::NotEq => false,
        CmpOp::Lt => gt(&min, value) || eq(&min, value),
        CmpOp::LtEq => gt(&min, value),
        CmpOp::Gt => lt(&max, value) || eq(&max, value),
        CmpOp::GtEq => lt(&max, value),
    }
}

/// `true` = no row of the container can satisfy `expr`.
fn refutes(expr: &Expr, stats: &dyn Fn(&str) -> Option<ColStats>) -> bool {
    match expr {
        Expr::False => true,
        Expr::True | Expr::Not(_) => false,
        Expr::Cmp { column, op, value } => {
            stats(column).is_some_and(|s| refutes_cmp(&s, *op, value))
        }
        Expr::Between {
            column,
            low,
            high,
            inclusive,
        } => stats(column).is_some_and(|s| {
            let (lo, hi) = if *inclusive {
                (CmpOp::GtEq, CmpOp::LtEq)
            } else {
                (CmpOp::Gt, CmpOp::Lt)
            };
            refutes_cmp(&s, lo, low) || refutes_cmp(&s, hi, high)
        }),
        Expr::InList { column, values } => stats(column)
            .is_some_and(|s| values.iter().all(|v| refutes_cmp(&s, CmpOp::Eq, v))),
        Expr::IsNull { column, negated } => stats(column).is_some_and(|s| {
            if *negated {
                matches!((s.null_count, s.rows), (Some(n), Some(r)) if n == r)
            } else {
                s.null_count == Some(0)
            }
        }),
        Expr::And(c) => c.iter().any(|e| refutes(e, stats)),
        Expr::Or(c) => c.iter().all(|e| refutes(e, stats)),
        _ => false,
    }
}

struct RgStats {
    mins: ArrayRef,
    maxes: ArrayRef,
    nulls: Option<arrow_array::UInt64Array>,
}

async fn prune<P: AsyncBloomFilterProvider>(
    metadata: &ParquetMetaData,
    schema: &Schema,
    expr: &Expr,
    provider: &mut P,
) -> PruneResult {
    let mut names = Vec::new();
    expr.columns(&mut names);
    names.sort_unstable();
    names.dedup();
    let parquet_schema = metadata.file_metadata().schema_descr();

    let mut rg_stats: HashMap<&str, RgStats> = HashMap::new();
    for name in &names {
        let Ok(conv) = StatisticsConverter::try_new(name, schema, parquet_schema) else {
            continue;
        };
        let (Ok(mins), Ok(maxes)) = (
            conv.row_group_mins(metadata.row_groups()),
            conv.row_group_maxes(metadata.row_groups()),
        ) else {
            continue;
        };
        let nulls = conv.row_group_null_counts(metadata.row_groups()).ok();
        rg_stats.insert(name, RgStats { mins, maxes, nulls });
    }

    let mut kept = Vec::new();
    for rg in 0..metadata.num_row_groups() {
        let rows = u64::try_from(metadata.row_group(rg).num_rows()).ok();
        let lookup = |name: &str| -> Option<ColStats> {
            let s = rg_stats.get(name)?;
            Some(ColStats {
                min: ScalarValue::try_from_array(&s.mins, rg).ok(),
                max: ScalarValue::try_from_array(&s.maxes, rg).ok(),
                null_count: s
                    .nulls
                    .as_ref()
                    .filter(|n| !n.is_null(rg))
                    .map(|n| n.value(rg)),
                rows,
            })
        };
        if refutes(expr, &lookup) {
            continue;
        }
        if bloom_refutes(metadata, schema, expr, rg, provider).await {
            continue;
        }
        kept.push(rg);
    }

    let row_selection = page_selection(metadata, schema, expr, &names, &kept);
    PruneResult {
        row_groups: kept,
        row_selection,
    }
}

/// Conjunctive equality on string / i64 / u64 columns checked against bloom filters.
async fn bloom_refutes<P: AsyncBloomFilterProvider>(
    metadata: &ParquetMetaData,
    schema: &Schema,
    expr: &Expr,
    rg: usize,
    provider: &mut P,
) -> bool {
    let mut conj = Vec::new();
    fn flatten<'a>(e: &'a Expr, out: &mut Vec<&'a Expr>) {
        match e {
            Expr::And(c) => c.iter().for_each(|e| flatten(e, out)),
            e => out.push(e),
        }
    }
    flatten(expr, &mut conj);
    for e in conj {
        let Expr::Cmp {
            column,
            op: CmpOp::Eq,
            value,
        } = e
        else {
            continue;
        };
        // A filter holds values in the column's own physical form only.
        if schema.field_with_name(column).map(|f| f.data_type()).ok() != Some(&value.data_type()) {
            continue;
        }
        let row_group = metadata.row_group(rg);
        let Some(col) = row_group
            .columns()
            .iter()
            .position(|c| c.column_path().string() == *column)
        else {
            continue;
        };
        if row_group.column(col).bloom_filter_offset().is_none() {
            continue;
        }
        let requests = [(rg, col)];
        let filters = provider.bloom_filters_batch(&requests).await;
        let Some(filter) = filters.get(&(rg, col)) else {
            continue;
        };
        let present = match value {
            ScalarValue::Utf8(Some(s))
            | ScalarValue::LargeUtf8(Some(s))
            | ScalarValue::Utf8View(Some(s)) => filter.check(&s.as_str()),
            ScalarValue::Int64(Some(v)) => filter.check(v),
            ScalarValue::UInt64(Some(v)) => filter.check(&(*v as i64)),
            _ => true,
        };
        if !present {
            return true;
        }
    }
    false
}

/// Row selection within the kept row groups, from page statistics of top-level conjuncts.
fn page_selection(
    metadata: &ParquetMetaData,
    schema: &Schema,
    expr: &Expr,
    names: &[&str],
    kept: &[usize],
) -> Option<RowSelection> {
    let column_index = metadata.column_index()?;
    let offset_index = metadata.offset_index()?;
    if column_index.is_empty() || offset_index.is_empty() || kept.is_empty() {
        return None;
    }
    let parquet_schema = metadata.file_metadata().schema_descr();
    let mut conj = Vec::new();
    fn flatten<'a>(e: &'a Expr, out: &mut Vec<&'a Expr>) {
        match e {
            Expr::And(c) => c.iter().for_each(|e| flatten(e, out)),
            e => out.push(e),
        }
    }
    flatten(expr, &mut conj);

    let mut selection: Option<RowSelection> = None;
    for name in names {
        let own: Vec<&Expr> = conj
            .iter()
            .copied()
            .filter(|e| {
                let mut cols = Vec::new();
                e.columns(&mut cols);
                !cols.is_empty() && cols.iter().all(|c| c == name)
            })
            .collect();
        if own.is_empty() {
            continue;
        }
        let Ok(conv) = StatisticsConverter::try_new(name, schema, parquet_schema) else {
            continue;
        };
        let Some(col) = conv.parquet_column_index() else {
            continue;
        };
        let (Ok(mins), Ok(maxes)) = (
            conv.data_page_mins(column_index, offset_index, kept),
            conv.data_page_maxes(column_index, offset_index, kept),
        ) else {
            continue;
        };
        let mut selectors = Vec::new();
        let mut page = 0usize;
        let mut ok = true;
        for &rg in kept {
            let total = metadata.row_group(rg).num_rows() as usize;
            let locations = offset_index[rg][col].page_locations();
            for (i, loc) in locations.iter().enumerate() {
                let start = loc.first_row_index as usize;
                let end = locations
                    .get(i + 1)
                    .map(|l| l.first_row_index as usize)
                    .unwrap_or(total);
                if page >= mins.len() || page >= maxes.len() || end < start {
                    ok = false;
                    break;
                }
                let p = page;
                let lookup = |n: &str| -> Option<ColStats> {
                    (n == *name).then(|| ColStats {
                        min: ScalarValue::try_from_array(&mins, p).ok(),
                        max: ScalarValue::try_from_array(&maxes, p).ok(),
                        null_count: None,
                        rows: None,
                    })
                };
                let skip = own.iter().any(|e| refutes(e, &lookup));
                selectors.push(if skip {
                    RowSelector::skip(end - start)
                } else {
                    RowSelector::select(end - start)
                });
                page += 1;
            }
        }
        if !ok {
            continue;
        }
        if selectors.iter().all(|s| !s.skip) {
            continue;
        }
        let own_selection = RowSelection::from(selectors);
        selection = Some(match selection {
            Some(prev) => prev.intersection(&own_selection),
            None => own_selection,
        });
    }
    selection
}
